SPECIFICATION Spec
CONSTANTS
  Ks = {1, 2, 5, 9, 10, 11, 13, 16, 19, 20, 21, 25, 29, 30}
INVARIANTS One Close
CHECK_DEADLOCK FALSE
