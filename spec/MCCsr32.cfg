CONSTANTS
  LB = 16
  RV = 32
INIT Init
NEXT Next
INVARIANTS Alone ViewShows ViewKeeps MppLegal XlenFixed SatpLegal EpcEven SelectLegal Narrow CounterFixed SetClear Stored
CHECK_DEADLOCK FALSE
