SPECIFICATION Spec
CONSTANT Depth = 2
ACTION_CONSTRAINT Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
