SPECIFICATION Spec
CONSTANT Level = 2
CONSTANT Stride = 1
CONSTANT Most = 6
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
