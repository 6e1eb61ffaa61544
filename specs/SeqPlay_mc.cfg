CONSTANTS
  MaxRows = 2
  MaxRep = 2
  Kinds = {1, 2}
  Cs = {0, 1, 2, 3, 4}
  Ns = {1}
  Hist = FALSE
INIT InitMC
NEXT NextMC
INVARIANTS InOrder AllDone
