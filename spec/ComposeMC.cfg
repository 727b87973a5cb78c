SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxSize = 2
  Trusting = FALSE
INVARIANTS WalkReads SeekReads SeekIsSafe Unfinished GeometryOf Agree
ACTION_CONSTRAINT Watch
CHECK_DEADLOCK FALSE
