CONSTANTS
  LB = 16
  DEPTH = 4
INIT Init
NEXT Next
INVARIANTS Injective NoEffect OpenRight CloseRight TableKept OthersStay PositionedStay WriteRight ReadRight Contents Protected Guarded
CHECK_DEADLOCK FALSE
