SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Codes <- Plain
INVARIANT Frame
INVARIANT Ordered
INVARIANT Emitted
CHECK_DEADLOCK FALSE
