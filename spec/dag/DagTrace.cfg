CONSTANT N = 8
SPECIFICATION TSpec
INVARIANT WellFormed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
