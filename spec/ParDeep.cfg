SPECIFICATION Spec
CONSTANTS
  Lanes = 2
  Kinds = {"pack", "unpack", "append", "rewrite"}
  N = 2
  Preemptions = 3
  Shared = FALSE
INVARIANTS Alone Complete
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
