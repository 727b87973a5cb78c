SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Depth = 4
  Remembers = TRUE
INVARIANT Right
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
