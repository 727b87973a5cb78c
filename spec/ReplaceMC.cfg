SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Letters = 2
  Unordered = FALSE
  Checked = TRUE
  Emits = TRUE
INVARIANTS Harmless Complete Begun Emit
CHECK_DEADLOCK FALSE
