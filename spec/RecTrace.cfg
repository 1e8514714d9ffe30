CONSTANTS
  DoStep <- RecDo
  Empty <- EmptyRecs
  Match <- Equal
  StateProp <- RecOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
