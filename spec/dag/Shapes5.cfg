CONSTANTS N = 5 Depth = 0
SPECIFICATION RSpec
VIEW RView
ACTION_CONSTRAINT REmit
CHECK_DEADLOCK FALSE
