SPECIFICATION Spec
CONSTANT Most = 3
INVARIANT Lossless
INVARIANT Messages
INVARIANT Emitted
CHECK_DEADLOCK FALSE
