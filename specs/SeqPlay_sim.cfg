CONSTANTS
  MaxRows = 4096
  MaxRep = 4096
  Kinds = {1, 2, 3}
  Cs = {1, 2, 3, 4095, 4096, 4097, 8192, 12289}
  Ns = {1, 2, 4094, 4095, 4096, 4097, 8193}
  Hist = TRUE
INIT InitMC
NEXT NextSim
INVARIANTS SimEmit
