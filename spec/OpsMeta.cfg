SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS ContentRight MetaRight Geometry SlotsConstant MetaRoom StepRight
CONSTANTS
  MaxLen = 2
  MaxChunk = 2
  MaxCap = 1
  MaxTotal = 4
  MaxHist = 4
  Metas <- MetaSome
  WithRewrite = TRUE
