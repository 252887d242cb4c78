SPECIFICATION Spec
INVARIANT Inverses
CHECK_DEADLOCK FALSE
