SPECIFICATION Spec
INVARIANT Commute
CHECK_DEADLOCK FALSE
