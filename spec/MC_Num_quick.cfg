SPECIFICATION Spec
CONSTANT Scales <- QScales
CONSTANT Pats <- QPats
INVARIANT Laws
INVARIANT Transitive
INVARIANT Single
INVARIANT Rounds
INVARIANT Emitted
CHECK_DEADLOCK FALSE
