SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Nests
CONSTANT Depth = 7
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
