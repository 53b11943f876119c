CONSTANTS
  NSRC = 2
  NPRIO = 2
INIT Init
NEXT Next
INVARIANTS Pending Claimed ClaimRight DrainRight SignalRight SilentWhenTaken Untouched CompleteLocal
CHECK_DEADLOCK FALSE
