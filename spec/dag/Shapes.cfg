CONSTANTS N = 4 Depth = 0
SPECIFICATION RSpec
VIEW RView
ACTION_CONSTRAINT REmit
CHECK_DEADLOCK FALSE
