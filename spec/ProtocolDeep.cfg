SPECIFICATION Spec
CONSTANTS
  N = 2
  Small = FALSE
  Mistake = ""
INVARIANTS InOrder Whole Unfinished Clean Told Alive
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
