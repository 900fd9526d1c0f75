SPECIFICATION Spec
CONSTANTS
  Exec <- AvrExec
  Settle <- AvrSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
