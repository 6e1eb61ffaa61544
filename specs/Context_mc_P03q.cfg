CONSTANTS
  F = {1, 2}
  Stops = FALSE
  Hist = FALSE
  None = 99
  EvTimeouts = {99}
  Timeouts = {99, 0}
  MaxClock = 0
INIT Init
NEXT Next
INVARIANTS NoLostWait Progress
PROPERTIES OwnAnswer
CONSTRAINT Bound
VIEW View
