SPECIFICATION Spec
CONSTANTS
  Exec <- Mos6502Exec
  Settle <- Mos6502Settle
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
