SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Sloppy = TRUE
INVARIANT Alike
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
