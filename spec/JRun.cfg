SPECIFICATION RunSpec
INVARIANT Accounted
INVARIANT OneAtATime
CHECK_DEADLOCK FALSE
