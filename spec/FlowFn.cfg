SPECIFICATION Spec
INVARIANTS DagOK CacheOK CachedOK MapOK SeedOK
CHECK_DEADLOCK FALSE
