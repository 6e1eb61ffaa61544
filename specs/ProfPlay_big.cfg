CONSTANTS
  Tol = 1
  Hist = FALSE
  MaxPts = 9
INIT InitPlay
NEXT NextMC
INVARIANTS InOrder Everything Steps AtEnd Timely
