SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CompleteRight TableLast PackReadable AppendSafe Streaming
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxLen = 3
  MaxChunk = 2
  MaxCap = 2
  MaxAppends = 2
  Salts = {0, 1}
  WithDigest = {TRUE, FALSE}
  Torn = FALSE
