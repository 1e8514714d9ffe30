CONSTANTS
  Prelude <- ThePrelude
  Ops <- Sane
  Depth <- TheDepth
  DoStep <- StgDo
  Empty <- EmptyStg
  StepProp <- StgStepOk
  StateProp <- StgOk
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT StateOk
INVARIANT Emit
