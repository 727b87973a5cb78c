SPECIFICATION Spec
CONSTANTS Depth = 3
 Shapes = "some"
ACTION_CONSTRAINT Emit
INVARIANTS Restored Linear KeepsOrder
VIEW View
CHECK_DEADLOCK FALSE
