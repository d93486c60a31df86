CONSTANTS N = 100 Depth = 0
SPECIFICATION BSpec
INVARIANT BEmit
CHECK_DEADLOCK FALSE
