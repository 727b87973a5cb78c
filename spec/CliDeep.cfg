CONSTANTS
  Depth = 4
  Names = {"d", "d.blp", "x", "d.blp.blp"}
  Fresh = {"d", "x", "d.blp"}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
