CONSTANT Shapes <- GenShapes
CONSTANT MaxOps = 4
SPECIFICATION Spec
VIEW GenView
ACTION_CONSTRAINT EmitScript
CHECK_DEADLOCK FALSE
