SPECIFICATION Spec
INVARIANT Answers
CHECK_DEADLOCK FALSE
ALIAS Shown
