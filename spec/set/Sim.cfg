CONSTANTS Handles = {1, 2, 3, 4} Elems = {1, 2, 3, 4, 5, 6} MaxLen = 60
SPECIFICATION SimSpec
INVARIANTS TypeOK ResultsNotNil SimEmit
CHECK_DEADLOCK FALSE
