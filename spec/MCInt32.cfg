CONSTANTS
  LB = 16
  RV = 32
INIT InitInt
NEXT NextInt
INVARIANTS InterruptRight MachineNeverWaits TakenIsWithdrawn
CHECK_DEADLOCK FALSE
