SPECIFICATION Spec
INVARIANTS Numbering Succs Preds_ Starts ExitPoints RetExit Edges Class Branch Backward BackRet BackBranch BackEdges Special
CHECK_DEADLOCK FALSE
