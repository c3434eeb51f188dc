SPECIFICATION Spec
VIEW View
CONSTANT Tokens <- Marks
CONSTANT Depth = 4
INVARIANT Verdict
INVARIANT Emitted
CHECK_DEADLOCK FALSE
