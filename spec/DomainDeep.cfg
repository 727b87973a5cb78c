SPECIFICATION Spec
CONSTANT Depth = 3
PROPERTY Monotone
CHECK_DEADLOCK FALSE
