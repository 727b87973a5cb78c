SPECIFICATION Spec
CONSTANTS
  Lanes = 3
  Kinds = {"pack", "unpack", "append", "rewrite"}
  N = 1
  Preemptions = 2
  Shared = FALSE
INVARIANTS Alone Complete
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
