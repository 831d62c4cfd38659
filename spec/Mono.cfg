SPECIFICATION Spec
CONSTANT Chaotic = FALSE
INVARIANT Conforms
CHECK_DEADLOCK FALSE
