SPECIFICATION Spec
INVARIANTS Complete Unique Counts Iterate IdOfInst ById Stable MetaIds ArgIds NoMeta Ordered Emitted FunIter Lookup LookupLocal Entries
CHECK_DEADLOCK FALSE
