CONSTANTS
  DoStep <- SeqStep
  Empty <- SeqEmpty
  Match <- SeqMatch
  StateProp <- SeqOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
