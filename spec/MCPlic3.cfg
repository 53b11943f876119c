CONSTANTS
  NSRC = 2
  NPRIO = 3
INIT Init
NEXT Next
INVARIANTS Pending Claimed ClaimRight DrainRight SignalRight SilentWhenTaken Untouched CompleteLocal
CHECK_DEADLOCK FALSE
