SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Trusting = FALSE
  Stuck = TRUE
  Short = FALSE
INVARIANTS Work Memory Inside Accepts Cut 
PROPERTY Ends
CHECK_DEADLOCK FALSE
