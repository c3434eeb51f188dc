SPECIFICATION Spec
CONSTANT Level = 1
CONSTANT Stride = 11
CONSTANT Most = 6
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
