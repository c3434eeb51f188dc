SPECIFICATION Spec
CONSTANT Longest = 2
CONSTANT Lists = 2
CONSTANT Trees <- QTrees
CONSTANT Asked <- QAsked
INVARIANT Told
INVARIANT Emitted
CHECK_DEADLOCK FALSE
