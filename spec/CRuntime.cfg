SPECIFICATION Spec
INVARIANTS Order Complete Selectable Marked
CHECK_DEADLOCK FALSE
