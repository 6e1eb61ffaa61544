CONSTANTS
  C = {1, 2, 3, 4, 5}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
