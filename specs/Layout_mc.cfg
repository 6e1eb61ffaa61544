CONSTANTS
  Vals = {"B2", "I3"}
  Marks = {0}
  MaxOps = 3
  Files = {"d1"}
  Hist = FALSE
INIT Init
NEXT Next
VIEW view
CONSTRAINT Bound
PROPERTIES Severed Spared Shown Back
