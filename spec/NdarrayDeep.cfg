SPECIFICATION Spec
CONSTANTS Depth = 4
 Shapes = "more"
INVARIANTS Restored Linear KeepsOrder
VIEW View
CHECK_DEADLOCK FALSE
