CONSTANTS
  LB = 16
  RV = 32
INIT InitTrap
NEXT NextTrap
INVARIANTS ExceptionRight InterruptTrapRight ReturnRight ReturnGuard
CHECK_DEADLOCK FALSE
