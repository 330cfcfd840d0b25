SPECIFICATION Spec
INVARIANTS Disjoint Right Printed
CHECK_DEADLOCK FALSE
