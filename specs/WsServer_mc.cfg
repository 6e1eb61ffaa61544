CONSTANTS
  Conns = {"c1", "c2"}
  Ids = {1}
  Vals = {1, 2}
  MaxHolds = 1
  Validate = TRUE
  MaxBurst = 2
  Kinds = {"put", "hold", "noid", "sub", "unsub"}
  Addrs = {"10.1.99.7", "10.2.2.3"}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS SubsOk SubsOpen
PROPERTIES AnsweredOnce OpenOnly NoForbidden
VIEW View
