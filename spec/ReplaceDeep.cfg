SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Letters = 2
  Unordered = TRUE
  Checked = TRUE
  Emits = FALSE
INVARIANTS Harmless Complete Begun
CHECK_DEADLOCK FALSE
