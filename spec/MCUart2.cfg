CONSTANTS
  QSIZE = 2
  BACKOFF = 2
  BYTES = {1, 2}
  RAW = FALSE
INIT Init
NEXT Next
CONSTRAINT Short
INVARIANTS Fifo ReadRight Bounded DataReady TransmitterIdle LineRight IirRight TransmitRight QuietReads OnlyThrTransmits Taken NotTaken
CHECK_DEADLOCK FALSE
