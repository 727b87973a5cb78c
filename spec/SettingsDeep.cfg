SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Sloppy = FALSE
  Few = TRUE
INVARIANTS AsRequested TypesizeStays
VIEW View
CHECK_DEADLOCK FALSE
