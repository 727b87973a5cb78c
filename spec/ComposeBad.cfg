SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxSize = 2
  Trusting = TRUE
INVARIANTS WalkReads SeekReads SeekIsSafe Unfinished GeometryOf Agree
CHECK_DEADLOCK FALSE
