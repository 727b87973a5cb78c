SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxObjs = 3
  Alias = FALSE
  Shared = FALSE
INVARIANTS Kept Fixed
PROPERTIES OneAtATime KindsStay
VIEW View
CHECK_DEADLOCK FALSE
