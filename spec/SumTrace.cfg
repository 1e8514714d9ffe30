CONSTANTS
  DoStep <- SumStep
  Empty <- EmptySum
  Match <- SumMatch
  StateProp <- SumOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
