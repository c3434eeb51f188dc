SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Nests
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
