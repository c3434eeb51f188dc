SPECIFICATION Spec
CONSTANT Docs <- QDocs
INVARIANT Near
INVARIANT Emitted
CHECK_DEADLOCK FALSE
