CONSTANT LB = 2
SPECIFICATION Spec
INVARIANTS Conv BitsOK AddOK CmpOK ShiftOK MulOK DivOK
CHECK_DEADLOCK FALSE
