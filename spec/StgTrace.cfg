CONSTANTS
  DoStep <- StgDo
  Empty <- EmptyStg
  Match <- StgMatch
  StateProp <- StgOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
