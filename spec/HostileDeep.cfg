SPECIFICATION Spec
CONSTANTS
  MaxChunks = 4
  Trusting = FALSE
  Stuck = FALSE
  Short = FALSE
INVARIANTS Work Memory Inside Accepts Cut
PROPERTY Ends
CHECK_DEADLOCK FALSE
