SPECIFICATION Spec
INVARIANT Covered
ALIAS View
CHECK_DEADLOCK FALSE
