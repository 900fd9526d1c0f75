SPECIFICATION Spec
CONSTANTS
  Exec <- PdkExec
  Settle <- PdkSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
