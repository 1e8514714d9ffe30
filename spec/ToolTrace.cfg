CONSTANTS
  DoStep <- ToolStep
  Empty <- ToolEmpty
  Match <- ToolMatch
  StateProp <- ToolOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
