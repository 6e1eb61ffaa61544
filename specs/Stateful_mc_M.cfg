CONSTANTS
  Manager = TRUE
  MaxOps = 3
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS QuietStates
PROPERTIES LegalTrail DisableEnds
CONSTRAINT Bound
VIEW View
