CONSTANTS
  LB = 16
INIT Init
NEXT Next
VIEW View
INVARIANTS Success Stored Loaded OneTry Kept
CHECK_DEADLOCK FALSE
