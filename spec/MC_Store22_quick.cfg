SPECIFICATION Spec
CONSTANT Depth = 1
CONSTANT Mode = "reads"
CONSTANT Trees <- TTrees
INVARIANT Frame
INVARIANT Emitted
CHECK_DEADLOCK FALSE
