SPECIFICATION Spec
VIEW View
CONSTANT Families <- QFamilies
CONSTANT WithIds = TRUE
INVARIANT Rules
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
