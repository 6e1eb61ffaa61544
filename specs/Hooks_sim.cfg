CONSTANTS
  Parts = {1, 2, 3, 4}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
