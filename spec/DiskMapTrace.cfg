SPECIFICATION TraceSpec
INVARIANTS Refines Lookups NoTombInFile
CHECK_DEADLOCK FALSE
