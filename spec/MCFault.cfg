SPECIFICATION Spec
INVARIANTS Allowed AllWhole Frame
CHECK_DEADLOCK FALSE
