SPECIFICATION Spec
CONSTANTS
  Exec <- ST7Exec
  Settle <- ST7Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
