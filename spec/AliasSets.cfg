SPECIFICATION Spec
INVARIANTS Wellformed FreshOk OpOk
CHECK_DEADLOCK FALSE
