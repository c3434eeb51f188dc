SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Pairs
CONSTANT Depth = 6
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
