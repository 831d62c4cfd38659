SPECIFICATION Spec
INVARIANTS NoLeak Functional Merged CtxBound
CHECK_DEADLOCK TRUE
