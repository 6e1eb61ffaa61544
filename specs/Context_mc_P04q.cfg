CONSTANTS
  F = {1, 2}
  Stops = TRUE
  Hist = FALSE
  None = 99
  EvTimeouts = {99}
  Timeouts = {99, 0}
  MaxClock = 0
INIT Init
NEXT Next
INVARIANTS NoLostWait Progress
PROPERTIES OwnAnswer
CONSTRAINT Bound2
VIEW View
