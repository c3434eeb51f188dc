SPECIFICATION Spec
CONSTANT Families <- TFamilies
CONSTANT Widths <- TWidths
INVARIANT Rules
INVARIANT Ids
INVARIANT OneLine
INVARIANT Stable
INVARIANT RoundTrip
INVARIANT Emitted
CHECK_DEADLOCK FALSE
