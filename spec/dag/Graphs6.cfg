CONSTANTS N = 6 Depth = 0
SPECIFICATION RSpec
VIEW RView
ACTION_CONSTRAINT REmitGraphs RGraphs
CHECK_DEADLOCK FALSE
