SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Trusting = FALSE
  Stuck = FALSE
  Short = FALSE
INVARIANTS Work Memory Inside Accepts Cut Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
