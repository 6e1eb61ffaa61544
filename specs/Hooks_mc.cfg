CONSTANTS
  Parts = {1, 2, 3}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS PhaseOverMeansQuiet SuccessMeansAll FailStops
PROPERTIES FirstErrorWins RaiseIsFirst
CONSTRAINT Bound
VIEW View
