CONSTANT Depth = 2
SPECIFICATION Spec
INVARIANTS Disjoint LastWins Selected WriteSeen
CHECK_DEADLOCK FALSE
