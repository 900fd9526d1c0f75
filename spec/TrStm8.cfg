SPECIFICATION Spec
CONSTANTS
  Exec <- Stm8Exec
  Settle <- Stm8Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
