SPECIFICATION Spec
CONSTANT Longest = 3
CONSTANT Lists = 4
INVARIANT Rules
INVARIANT Emitted
CHECK_DEADLOCK FALSE
