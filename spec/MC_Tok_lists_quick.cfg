SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Lists
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
