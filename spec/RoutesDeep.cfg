SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Sloppy = FALSE
INVARIANT Alike
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
