CONSTANTS
  Tol = 1
  Hist = FALSE
  MaxPts = 6
INIT InitPlay
NEXT NextMC
INVARIANTS InOrder Everything Steps AtEnd Timely
