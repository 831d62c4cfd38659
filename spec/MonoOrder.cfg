SPECIFICATION Spec
CONSTANT Chaotic = TRUE
INVARIANT Conforms
CHECK_DEADLOCK FALSE
