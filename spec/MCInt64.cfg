CONSTANTS
  LB = 16
  RV = 64
INIT InitInt
NEXT NextInt
INVARIANTS InterruptRight MachineNeverWaits TakenIsWithdrawn
CHECK_DEADLOCK FALSE
