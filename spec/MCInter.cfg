SPECIFICATION Spec
CONSTANT Slots = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
VIEW View
INVARIANT SizesExact
INVARIANT RoundTrips
INVARIANT WritesWellFormed
INVARIANT SaveStable
INVARIANT ViewInStep
PROPERTY AudioKept
PROPERTY Independent
PROPERTY ListStep
PROPERTY Bookkeeping
