SPECIFICATION Spec
CONSTANT Families <- QFamilies
INVARIANT Linked
INVARIANT Walked
INVARIANT Emitted
CHECK_DEADLOCK FALSE
