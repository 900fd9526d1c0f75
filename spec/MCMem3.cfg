CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANTS Disjoint LastWins Selected WriteSeen
CHECK_DEADLOCK FALSE
