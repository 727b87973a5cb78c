SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  Lenient = FALSE
  Careless = FALSE
  Eager = FALSE
INVARIANTS Beginning Says Surfaces Emit
CHECK_DEADLOCK FALSE
