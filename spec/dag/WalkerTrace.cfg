CONSTANT Shapes <- SmallShapes
CONSTANT MaxOps = 100
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
