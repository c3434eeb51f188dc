SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Rejects
CHECK_DEADLOCK FALSE
