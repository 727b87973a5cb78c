SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Trusting = FALSE
  Stuck = FALSE
  Short = TRUE
INVARIANTS Work Memory Inside Accepts Cut 
PROPERTY Ends
CHECK_DEADLOCK FALSE
