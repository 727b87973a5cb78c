SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Letters = 2
  Unordered = TRUE
  Checked = TRUE
  Emits = FALSE
INVARIANTS Harmless Complete Begun
CHECK_DEADLOCK FALSE
