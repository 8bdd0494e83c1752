SPECIFICATION TraceSpec
INVARIANTS TypeInv Answers
CHECK_DEADLOCK FALSE
