SPECIFICATION HSpec
INVARIANT IteratorsKeep
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
