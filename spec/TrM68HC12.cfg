SPECIFICATION Spec
CONSTANTS
  Exec <- M68HC12Exec
  Settle <- M68HC12Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
