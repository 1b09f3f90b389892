SPECIFICATION Spec
INVARIANT Rooted
CHECK_DEADLOCK FALSE
