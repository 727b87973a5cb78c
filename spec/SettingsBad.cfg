SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Sloppy = TRUE
  Few = FALSE
INVARIANTS AsRequested TypesizeStays
VIEW View
CHECK_DEADLOCK FALSE
