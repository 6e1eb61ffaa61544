CONSTANTS
  Clients = {1, 2, 3}
  Vals = {0, 1}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK
PROPERTIES AnsweredOnce NoSpurious
VIEW View
