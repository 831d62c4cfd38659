SPECIFICATION Spec
INVARIANTS Sound Collected
POSTCONDITION Precise
CHECK_DEADLOCK FALSE
