INIT TInit
NEXT TNext
VIEW TraceView
INVARIANT Conforms
CHECK_DEADLOCK FALSE
