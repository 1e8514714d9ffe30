CONSTANTS
  DoStep <- PreStep
  Empty <- PreEmpty
  Match <- PreMatch
  StateProp <- PreOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
