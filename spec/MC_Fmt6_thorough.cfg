SPECIFICATION Spec
VIEW View
CONSTANT Families <- RTFamilies
CONSTANT WithIds = TRUE
INVARIANT Rules
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
