CONSTANTS
  F = {1, 2, 3, 4}
  Stops = FALSE
  Hist = TRUE
  None = 99
  EvTimeouts = {99, 0, 1, 2, 3}
  Timeouts = {99, 0, 1, 2, 3}
  MaxClock = 90
INIT Init
NEXT Next
INVARIANTS NoLostWait Progress SimEmit
