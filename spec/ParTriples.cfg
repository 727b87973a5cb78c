SPECIFICATION Spec
CONSTANTS
  Lanes = 3
  Kinds = {"pack", "unpack", "append"}
  N = 1
  Preemptions = 1
  Shared = FALSE
INVARIANTS Alone Complete
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
