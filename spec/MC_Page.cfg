CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT SysOk
INVARIANT Emit
