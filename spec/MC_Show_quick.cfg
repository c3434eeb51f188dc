SPECIFICATION Spec
CONSTANT Families <- QFamilies
INVARIANT Emitted
CHECK_DEADLOCK FALSE
