SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
CONSTANTS
  Depth = 2
  Kinds = {"bp", "meta"}
