SPECIFICATION Spec
CONSTANT Inner <- Few
INVARIANT Kept
INVARIANT Emitted
CHECK_DEADLOCK FALSE
