SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Wide = 6
INVARIANT OneOwner
INVARIANT Backed
INVARIANT Numbered
INVARIANT Emitted
CHECK_DEADLOCK FALSE
