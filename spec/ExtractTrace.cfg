CONSTANTS
  DoStep <- ExtractStep
  Empty <- ExtractEmpty
  Match <- ExtractMatch
  StateProp <- ExtractOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
