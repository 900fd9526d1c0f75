SPECIFICATION Spec
CONSTANTS
  Exec <- GbExec
  Settle <- GbSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
