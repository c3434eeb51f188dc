SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Names
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
