SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Pairs
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
