SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  Lenient = TRUE
  Careless = FALSE
  Eager = FALSE
INVARIANTS Beginning Says Surfaces
CHECK_DEADLOCK FALSE
