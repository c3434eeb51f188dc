SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Blanks
CONSTANT Depth = 5
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
