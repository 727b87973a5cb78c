SPECIFICATION Spec
CONSTANTS
  MaxChunks = 12
  Lenient = FALSE
  Careless = FALSE
  Eager = FALSE
INVARIANTS Beginning Says Surfaces
CHECK_DEADLOCK FALSE
