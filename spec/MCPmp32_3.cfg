CONSTANTS
  LB = 16
  RV = 32
  FIRST = 3
  TOP = 5
  PERMS = {0,1,3,4,6}
INIT Init
NEXT Next
INVARIANTS PmpRight WordGrain Equal
CHECK_DEADLOCK FALSE
