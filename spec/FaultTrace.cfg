SPECIFICATION TSpec
CONSTANT Slots = {0, 1, 2, 3}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
