SPECIFICATION Spec
CONSTANTS
  Exec <- PblazeExec
  Settle <- PblazeSettle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
