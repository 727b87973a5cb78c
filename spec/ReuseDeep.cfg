SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Depth = 5
  Remembers = FALSE
INVARIANT Right
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
