CONSTANTS
  Manager = FALSE
  MaxOps = 3
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
