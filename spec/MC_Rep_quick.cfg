SPECIFICATION Spec
CONSTANT Most = 2
INVARIANT Lossless
INVARIANT Messages
INVARIANT Emitted
CHECK_DEADLOCK FALSE
