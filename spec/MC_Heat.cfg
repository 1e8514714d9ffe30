CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
  DoStep <- HeatStep
  Empty <- HeatEmpty
  StepProp <- HeatStepOk
  StateProp <- HeatOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
