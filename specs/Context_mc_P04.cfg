CONSTANTS
  F = {1, 2}
  Stops = TRUE
  Hist = FALSE
  None = 99
  EvTimeouts = {99}
  Timeouts = {99, 1}
  MaxClock = 1
INIT Init
NEXT Next
INVARIANTS NoLostWait Progress
PROPERTIES OwnAnswer
CONSTRAINT Bound
VIEW View
