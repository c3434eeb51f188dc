SPECIFICATION Spec
CONSTANT Families <- QFamilies
INVARIANT Laws
INVARIANT Transitive
INVARIANT Emitted
CHECK_DEADLOCK FALSE
