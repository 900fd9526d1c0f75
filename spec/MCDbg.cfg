INIT Init
NEXT Next
CONSTANTS
 Fuel = 200
 Depth = 3
INVARIANTS Slicing Terminates StopSite NoMiss TempGone Numbers Counts Clock UserTimer
CHECK_DEADLOCK FALSE
