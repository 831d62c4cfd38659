SPECIFICATION CSpec
INVARIANTS FactsMatch FactsBounded ValuesMatch
CHECK_DEADLOCK FALSE
