CONSTANTS
  LB = 16
  RV = 32
INIT Init
NEXT Next
INVARIANTS Right Offset Identity Denied
CHECK_DEADLOCK FALSE
