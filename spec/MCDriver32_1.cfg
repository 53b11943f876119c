CONSTANTS
  LB = 16
  RV = 32
  CTX = 1
  MOST = 4
SPECIFICATION Spec
INVARIANTS Order Sane Asks Quiet
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
