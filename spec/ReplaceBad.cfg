SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Letters = 2
  Unordered = FALSE
  Checked = FALSE
  Emits = FALSE
INVARIANTS Harmless Complete Begun
CHECK_DEADLOCK FALSE
