CONSTANTS
  LB = 16
  RV = 64
  FIRST = 0
  TOP = 8
  PERMS = {0,1,3,4,6}
INIT Init
NEXT Next
INVARIANTS PmpRight WordGrain Equal
CHECK_DEADLOCK FALSE
