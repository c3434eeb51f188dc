SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Lists
CONSTANT Depth = 6
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
