SPECIFICATION Spec
CONSTANTS
  Exec <- P1516Exec
  Settle <- P1516Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
