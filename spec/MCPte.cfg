CONSTANTS
  LB = 16
INIT Init
NEXT Next
INVARIANTS Rules Complete Grow FetchBlind MxrLoads Global
CHECK_DEADLOCK FALSE
