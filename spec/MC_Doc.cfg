CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
  DoStep <- DocStep
  Empty <- DocEmpty
  StepProp <- DocStepOk
  StateProp <- DocOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
