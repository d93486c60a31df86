CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS TypeOK WellFormed Duality LayersPartition ReductionCorrect
PROPERTIES FailureIsAtomic QueriesDoNotChange
CHECK_DEADLOCK FALSE
