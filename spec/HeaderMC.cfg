SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
ACTION_CONSTRAINT Emit
CONSTANTS
  Depth = 1
  Kinds = {"bp", "meta"}
