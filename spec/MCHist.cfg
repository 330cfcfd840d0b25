SPECIFICATION Spec
INVARIANTS Allowed Frame Involution
CHECK_DEADLOCK FALSE
