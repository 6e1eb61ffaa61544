CONSTANTS
  Shapes = {3, 5, 21, 32, 123, 222}
  MaxCap = 1000
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
