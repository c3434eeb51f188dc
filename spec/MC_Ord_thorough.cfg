SPECIFICATION Spec
CONSTANT Families <- TFamilies
INVARIANT Laws
INVARIANT Transitive
INVARIANT Emitted
CHECK_DEADLOCK FALSE
