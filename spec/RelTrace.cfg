SPECIFICATION TraceSpec
INVARIANT Answers
CHECK_DEADLOCK FALSE
