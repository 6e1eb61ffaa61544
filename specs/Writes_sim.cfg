CONSTANTS
  Kinds = {"bool", "choice", "int8", "uint8", "int16", "int32", "int64", "uint32", "float32", "float64", "str", "boolarr", "choicearr", "int32arr", "float64arr", "strarr", "table"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
