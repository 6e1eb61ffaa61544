CONSTANTS
  Vals = {"B2", "I3", "B1"}
  Marks = {0}
  MaxOps = 4
  Files = {"d1"}
  Hist = FALSE
INIT Init
NEXT Next
VIEW view
CONSTRAINT Bound
PROPERTIES Severed Spared Shown Back
