CONSTANTS
  DoStep <- DocStep
  Empty <- DocEmpty
  Match <- DocMatch
  StateProp <- DocOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
