CONSTANTS
  Depth = 4
SPECIFICATION Spec
INVARIANTS Selected Filtered Bounded
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
