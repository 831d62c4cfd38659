SPECIFICATION Spec
INVARIANTS LeafOK ComposeOK ChildrenOK JoinUB JoinExact JoinSym ConstOK EqOK LatticeOK LatticeLaws
CHECK_DEADLOCK FALSE
