SPECIFICATION Spec
VIEW TView
INVARIANT Accepted
CHECK_DEADLOCK FALSE
