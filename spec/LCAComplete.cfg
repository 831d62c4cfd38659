SPECIFICATION Spec
INVARIANTS Sound Collected
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
