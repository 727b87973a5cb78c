SPECIFICATION Spec
CONSTANTS
  NF = 4
  Depth = 4
  Rooms = {1, 3}
  Afters = {1, 2}
INVARIANTS Right Told
CHECK_DEADLOCK FALSE
