CONSTANTS
  DoStep <- UiStep
  Empty <- DocEmpty
  Match <- UiMatch
  StateProp <- DocOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
