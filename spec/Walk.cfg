SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS FactsByPaths ValuesByPaths
CHECK_DEADLOCK FALSE
