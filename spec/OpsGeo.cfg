SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS ContentRight MetaRight Geometry SlotsConstant MetaRoom StepRight
CONSTANTS
  MaxLen = 5
  MaxChunk = 3
  MaxCap = 3
  MaxTotal = 10
  MaxHist = 4
  Metas <- MetaNone
  WithRewrite = FALSE
