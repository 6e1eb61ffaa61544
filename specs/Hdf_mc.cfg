CONSTANTS
  Shapes = {3, 21, 32, 123, 222}
  MaxCap = 12
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS Ok NotLost
PROPERTIES DoneExactly TimesOut Patient Forward
CONSTRAINT Bound
VIEW View
