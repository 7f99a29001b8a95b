SPECIFICATION RMSpec
INVARIANT InOrder
INVARIANT AsWritten
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
