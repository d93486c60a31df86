CONSTANTS N = 5 Depth = 60
SPECIFICATION SimSpec
INVARIANT SimEmit
CHECK_DEADLOCK FALSE
