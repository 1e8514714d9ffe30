CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
  DoStep <- IdStep
  Empty <- IdEmpty
  StepProp <- IdStepOk
  StateProp <- IdOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
