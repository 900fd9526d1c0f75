SPECIFICATION Spec
CONSTANTS
  Exec <- M6809Exec
  Settle <- M6809Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
