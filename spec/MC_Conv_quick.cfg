SPECIFICATION Spec
CONSTANT Inner <- Some
INVARIANT Kept
INVARIANT Emitted
CHECK_DEADLOCK FALSE
