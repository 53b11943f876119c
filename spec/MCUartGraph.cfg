CONSTANTS
  QSIZE = 64
  BACKOFF = 16
  BYTES = {7}
  RAW = TRUE
INIT Init
NEXT Next
VIEW NodeView
CONSTRAINT GraphShort
INVARIANT Graph
CHECK_DEADLOCK FALSE
