SPECIFICATION Spec
CONSTANTS
  Exec <- Z80Exec
  Settle <- Z80Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
