SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Rows
CONSTANT Depth = 7
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
