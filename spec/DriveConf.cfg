SPECIFICATION Spec
INVARIANTS Accepted FinishedAtEnd
CHECK_DEADLOCK FALSE
