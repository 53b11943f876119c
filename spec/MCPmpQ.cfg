CONSTANTS
  LB = 16
  RV = 64
  FIRST = 7
  TOP = 4
  PERMS = {1,6}
INIT Init
NEXT Next
INVARIANTS PmpRight WordGrain Equal
CHECK_DEADLOCK FALSE
