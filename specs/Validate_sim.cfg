CONSTANTS
  Parts = {1, 2, 3}
  Val = {0, 1, 2, 3}
  NRules = 5
  Hist = TRUE
INIT InitSim
NEXT NextSim
INVARIANTS SimEmit
