SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Sloppy = FALSE
  Few = FALSE
INVARIANTS AsRequested TypesizeStays
ACTION_CONSTRAINT Watch
VIEW View
CHECK_DEADLOCK FALSE
