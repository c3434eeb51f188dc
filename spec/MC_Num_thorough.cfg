SPECIFICATION Spec
CONSTANT Scales <- TScales
CONSTANT Pats <- TPats
INVARIANT Laws
INVARIANT Transitive
INVARIANT Single
INVARIANT Rounds
INVARIANT Emitted
CHECK_DEADLOCK FALSE
