SPECIFICATION RSpec
CHECK_DEADLOCK FALSE
INVARIANT Intact
INVARIANT Closed
INVARIANT Untouched
PROPERTY Returns
PROPERTY Refines
