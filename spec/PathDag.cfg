SPECIFICATION Spec
INVARIANTS Sound Complete SameLanguage Shortened Reversed WellFormed
CHECK_DEADLOCK FALSE
ALIAS View
