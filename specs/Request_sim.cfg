CONSTANTS
  Clients = {1, 2, 3, 4}
  Vals = {0, 1, 2, 3}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK SimEmit
