SPECIFICATION Spec
INVARIANTS Disjoint Right
CHECK_DEADLOCK FALSE
