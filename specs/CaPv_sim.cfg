CONSTANTS
  Kinds = {"long", "double", "string", "bool", "choice", "chars", "longs", "doubles"}
  Sevs = {0, 1, 2, 3}
  MaxOps = 1000
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
