SPECIFICATION MCSpec
INVARIANT LawHolds
CHECK_DEADLOCK FALSE
