CONSTANTS
  Depth = 2
  Objs = {"o1", "o2"}
  Copies = TRUE
SPECIFICATION Spec
INVARIANTS ArgsKept Deterministic
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
