SPECIFICATION Spec
CONSTANTS
  Exec <- I8048Exec
  Settle <- I8048Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
