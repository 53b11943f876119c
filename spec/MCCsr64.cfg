CONSTANTS
  LB = 16
  RV = 64
INIT Init
NEXT Next
INVARIANTS Alone ViewShows ViewKeeps MppLegal XlenFixed SatpLegal EpcEven SelectLegal Narrow CounterFixed SetClear Stored
CHECK_DEADLOCK FALSE
