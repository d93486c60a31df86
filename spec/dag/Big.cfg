CONSTANTS N = 12 Depth = 0
SPECIFICATION BSpec
INVARIANT BEmit
CHECK_DEADLOCK FALSE
