SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Blocks
CONSTANT Depth = 4
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
