SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Trusting = TRUE
  Stuck = FALSE
  Short = FALSE
INVARIANTS Work Memory Inside Accepts Cut 
PROPERTY Ends
CHECK_DEADLOCK FALSE
