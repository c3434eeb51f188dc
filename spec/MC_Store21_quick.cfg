SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT Mode = "copies"
CONSTANT Trees <- QTrees
INVARIANT Frame
INVARIANT Emitted
CHECK_DEADLOCK FALSE
