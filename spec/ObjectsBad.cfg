SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxObjs = 2
  Alias = TRUE
  Shared = FALSE
INVARIANTS Kept Fixed
PROPERTIES OneAtATime KindsStay
VIEW View
CHECK_DEADLOCK FALSE
