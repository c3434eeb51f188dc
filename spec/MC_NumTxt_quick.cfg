SPECIFICATION Spec
CONSTANT Chars <- QChars
CONSTANT MaxLen = 4
INVARIANT Sane
INVARIANT Emitted
CHECK_DEADLOCK FALSE
