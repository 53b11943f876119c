CONSTANTS
  LB = 16
  RV = 32
  CTX = 2
  MOST = 4
SPECIFICATION Spec
INVARIANTS Order Sane Asks Quiet
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
