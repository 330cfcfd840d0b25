SPECIFICATION Spec
INVARIANTS Allowed Refused2
CHECK_DEADLOCK FALSE
