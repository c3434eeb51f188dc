SPECIFICATION Spec
CONSTANT Families <- TFamilies
INVARIANT Linked
INVARIANT Walked
INVARIANT Emitted
CHECK_DEADLOCK FALSE
