SPECIFICATION Spec
CONSTANT Longest = 2
CONSTANT Lists = 3
INVARIANT Rules
INVARIANT Emitted
CHECK_DEADLOCK FALSE
