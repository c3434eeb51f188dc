SPECIFICATION Spec
CONSTANT Level = 1
CONSTANT Stride = 3
CONSTANT Most = 8
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
