SPECIFICATION Spec
INVARIANT Progress
CHECK_DEADLOCK FALSE
