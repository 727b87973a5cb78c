SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Sloppy = FALSE
INVARIANT Alike
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
