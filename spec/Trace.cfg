SPECIFICATION TraceSpec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
CONSTANTS
  Nil <- FpNil
  Cat <- FpCat
  Size <- FpSize
