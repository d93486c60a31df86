CONSTANT Shapes <- SmallShapes
CONSTANT MaxOps = 5
SPECIFICATION Spec
INVARIANTS EachOnce BreadthFirst ClosedLast CompleteUnlessStopped NearestFirst AtMostOneLate NoLateAfterQuiescence
PROPERTIES StopEndsWalk ReceiveReturns
CHECK_DEADLOCK FALSE
