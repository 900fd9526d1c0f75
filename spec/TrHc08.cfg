SPECIFICATION Spec
CONSTANTS
  Exec <- Hc08Exec
  Settle <- Hc08Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
