SPECIFICATION TraceSpec
CONSTANT Slots = {0, 1, 2, 3}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
