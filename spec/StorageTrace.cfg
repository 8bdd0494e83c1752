SPECIFICATION TraceSpec
INVARIANT TypeInv
VIEW VIEWv
CHECK_DEADLOCK FALSE
