SPECIFICATION Spec
CONSTANT Docs <- TDocs
INVARIANT Near
INVARIANT Emitted
CHECK_DEADLOCK FALSE
