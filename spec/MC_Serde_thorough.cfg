SPECIFICATION Spec
CONSTANT Level = 3
CONSTANT Stride = 1
CONSTANT Most = 8
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
