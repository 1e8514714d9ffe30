CONSTANTS
  DoStep <- HeatStep
  Empty <- HeatEmpty
  Match <- HeatMatch
  StateProp <- HeatOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
