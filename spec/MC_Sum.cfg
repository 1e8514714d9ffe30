CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps2
  Depth <- TheDepth
  DoStep <- SumStep
  Empty <- EmptySum
  StepProp <- SumStepOk
  StateProp <- SumOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
