SPECIFICATION Spec
INVARIANTS Disjoint Right Again
CHECK_DEADLOCK FALSE
