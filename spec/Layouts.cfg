SPECIFICATION LSpec
INVARIANT LawsOfFinding
CHECK_DEADLOCK FALSE
