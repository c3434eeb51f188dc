SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Wide = 4
INVARIANT OneOwner
INVARIANT Backed
INVARIANT Numbered
INVARIANT Emitted
CHECK_DEADLOCK FALSE
