CONSTANTS N = 4  Depth = 0
SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
