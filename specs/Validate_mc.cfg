CONSTANTS
  Parts = {1, 2}
  Val = {0, 1, 2}
  NRules = 1
  Hist = FALSE
SPECIFICATION SpecMC
INVARIANTS Agreed Allowed
PROPERTY Ends
VIEW View
