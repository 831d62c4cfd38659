SPECIFICATION Spec
INVARIANT Sound
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
