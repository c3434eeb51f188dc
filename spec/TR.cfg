SPECIFICATION TraceSpec
INVARIANT Conforms
INVARIANT Rejects
CHECK_DEADLOCK FALSE
