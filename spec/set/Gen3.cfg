CONSTANTS Handles = {1, 2} Elems = {1, 2, 3, 4} MaxLen = 0
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK ResultsNotNil
PROPERTY OnlyTarget
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
