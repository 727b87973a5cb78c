SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  Lenient = FALSE
  Careless = FALSE
  Eager = TRUE
INVARIANTS Beginning Says Surfaces
CHECK_DEADLOCK FALSE
