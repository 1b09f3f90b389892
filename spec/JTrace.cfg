SPECIFICATION TraceSpec
INVARIANT StateOK
PROPERTY Progress
CHECK_DEADLOCK FALSE
