CONSTANTS
  Tol = 1
  Hist = TRUE
  MaxPts = 0
INIT InitPlay
NEXT NextSim
INVARIANTS SimEmit
