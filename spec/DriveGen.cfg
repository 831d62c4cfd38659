SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
