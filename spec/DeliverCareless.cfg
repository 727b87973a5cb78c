SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  Lenient = FALSE
  Careless = TRUE
  Eager = FALSE
INVARIANTS Beginning Says Surfaces
CHECK_DEADLOCK FALSE
