CONSTANTS
  LB = 16
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
