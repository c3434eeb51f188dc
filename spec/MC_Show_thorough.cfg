SPECIFICATION Spec
CONSTANT Families <- TFamilies
INVARIANT Emitted
CHECK_DEADLOCK FALSE
