SPECIFICATION Spec
INVARIANTS Functions Shape Forward Backward Indirect Vertices Within ReturnSites Intra Flags NonStart Generated
CHECK_DEADLOCK FALSE
