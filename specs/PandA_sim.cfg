CONSTANTS
  MaxCalls = 4
  Units = 3
  Vals = {"1", "a=b", "x<", "U", "", "!", ".", "1 (error)", "ERR", "ERROR 5", "!.", "OK", "OK =2", " x "}
  Bound = 1000000
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
