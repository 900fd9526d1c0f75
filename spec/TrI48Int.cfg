SPECIFICATION Spec
CONSTANTS
  Exec <- I48IntExec
  Settle <- I48IntSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
