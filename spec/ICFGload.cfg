SPECIFICATION Spec
INVARIANTS Loaded LoadedSites
CHECK_DEADLOCK FALSE
