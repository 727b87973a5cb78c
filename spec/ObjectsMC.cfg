SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxObjs = 2
  Alias = FALSE
  Shared = FALSE
INVARIANTS Kept Fixed
PROPERTIES OneAtATime KindsStay
ACTION_CONSTRAINT Watch
VIEW View
CHECK_DEADLOCK FALSE
