SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  MaxFiles = 4
  MaxCrash = 2
  Bug = "unlockfirst"
INVARIANTS Exclusive Free
CHECK_DEADLOCK FALSE
