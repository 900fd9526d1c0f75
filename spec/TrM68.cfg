SPECIFICATION Spec
CONSTANTS
  Exec <- M68Exec
  Settle <- M68Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
