SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Rows
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
