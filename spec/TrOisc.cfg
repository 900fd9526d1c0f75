SPECIFICATION Spec
CONSTANTS
  Exec <- OiscExec
  Settle <- OiscSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
