SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT Mode = "copies"
CONSTANT Trees <- TTrees
INVARIANT Frame
INVARIANT Emitted
CHECK_DEADLOCK FALSE
