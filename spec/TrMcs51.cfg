SPECIFICATION Spec
CONSTANTS
  Exec <- Mcs51Exec
  Settle <- Mcs51Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
