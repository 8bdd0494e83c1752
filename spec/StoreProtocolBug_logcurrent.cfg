SPECIFICATION Spec
CONSTANTS
  MaxUpd = 2
  MaxInst = 4
  MaxCrash = 2
  MaxFail = 2
  MaxUnload = 2
  Bug = "logcurrent"
  Depth = 0
INVARIANTS Durable Visible Integrated
PROPERTIES Atomic
VIEW view
CHECK_DEADLOCK FALSE
