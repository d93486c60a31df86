CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Mirrored CachesExact CachesUpwardClosed WellFormed
PROPERTIES Refinement FailureIsAtomic
VIEW View
CHECK_DEADLOCK FALSE
