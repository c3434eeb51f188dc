SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Blanks
CONSTANT Depth = 6
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
