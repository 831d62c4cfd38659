SPECIFICATION Spec
INVARIANT Sound
INVARIANT Exact
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
ALIAS Shown
