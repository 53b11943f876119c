CONSTANTS
  NSRC = 2
  NPRIO = 2
INIT Init
NEXT Next
VIEW NodeView
INVARIANT Graph
CHECK_DEADLOCK FALSE
