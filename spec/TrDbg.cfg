SPECIFICATION Spec
CONSTANTS Fuel = 3000
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
