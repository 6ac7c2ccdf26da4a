SPECIFICATION Spec
CONSTANT Slots = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
VIEW TView
INVARIANT SizesExact
INVARIANT RoundTrips
INVARIANT WritesWellFormed
INVARIANT SaveStable
INVARIANT ViewInStep
INVARIANT AllConform
INVARIANT ComposedIsParsed
PROPERTY AudioKept
PROPERTY Independent
PROPERTY ListStep
PROPERTY Bookkeeping
PROPERTY NamedOnly
