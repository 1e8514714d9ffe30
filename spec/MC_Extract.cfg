CONSTANTS
  Prelude <- ThePrelude
  Ops <- TheOps
  Depth <- TheDepth
  DoStep <- ExtractStep
  Empty <- ExtractEmpty
  StepProp <- ExtractStepOk
  StateProp <- ExtractOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
