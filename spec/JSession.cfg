SPECIFICATION Spec
INVARIANT Memoryless
PROPERTY Kept
CHECK_DEADLOCK FALSE
