SPECIFICATION Spec
CONSTANT Families <- QFamilies
CONSTANT Widths <- QWidths
INVARIANT Rules
INVARIANT Ids
INVARIANT OneLine
INVARIANT Stable
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
