SPECIFICATION Spec
CONSTANTS
  Exec <- Mcs51HwExec
  Settle <- Mcs51Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
