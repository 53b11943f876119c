CONSTANTS
  LB = 16
  MAX = 4
INIT Init
NEXT Next
INVARIANTS OrderFree AfterDashes NothingLost Settled SameFlag
CHECK_DEADLOCK FALSE
