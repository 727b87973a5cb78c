CONSTANTS
  Depth = 3
  Names = {"d", "d.blp", "x"}
  Fresh = {"d", "x"}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
