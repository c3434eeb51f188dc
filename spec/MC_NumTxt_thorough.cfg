SPECIFICATION Spec
CONSTANT Chars <- TChars
CONSTANT MaxLen = 5
INVARIANT Sane
INVARIANT Emitted
CHECK_DEADLOCK FALSE
