CONSTANTS
  C = {1, 2}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS StartedAreHosted AllStarted Published Empty Acyclic
PROPERTIES Halts
VIEW View
