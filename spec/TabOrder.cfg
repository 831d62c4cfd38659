SPECIFICATION OSpec
INVARIANTS FactsMatch FactsBounded ValuesMatch
CHECK_DEADLOCK FALSE
