SPECIFICATION Spec
CONSTANTS
  Exec <- I8080Exec
  Settle <- I8080Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
