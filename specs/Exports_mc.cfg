CONSTANTS
  V = {0, 1}
  N1 = {"ex", "ey"}
  N2 = {"px"}
  Hist = FALSE
INIT Init
NEXT McNext
INVARIANTS Exact Gone Chain
VIEW View
