SPECIFICATION TraceSpec
INVARIANT Conforms
INVARIANT Rejects
INVARIANT Document
CHECK_DEADLOCK FALSE
