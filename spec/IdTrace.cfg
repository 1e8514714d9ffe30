CONSTANTS
  DoStep <- IdStep
  Empty <- IdEmpty
  Match <- IdMatch
  StateProp <- IdOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
