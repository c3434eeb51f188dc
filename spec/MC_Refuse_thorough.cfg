SPECIFICATION Spec
CONSTANT Longest = 2
CONSTANT Lists = 3
CONSTANT Trees <- TTrees
CONSTANT Asked <- TAsked
INVARIANT Told
INVARIANT Emitted
CHECK_DEADLOCK FALSE
