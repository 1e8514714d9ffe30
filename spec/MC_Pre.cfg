CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
  DoStep <- PreStep
  Empty <- PreEmpty
  StepProp <- PreStepOk
  StateProp <- PreOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
