SPECIFICATION Spec
INVARIANTS ResumeExit
CHECK_DEADLOCK FALSE
