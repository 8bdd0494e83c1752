SPECIFICATION TraceSpec
INVARIANT TypeInv
CHECK_DEADLOCK FALSE
