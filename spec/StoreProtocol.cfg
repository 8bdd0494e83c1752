SPECIFICATION Spec
CONSTANTS
  MaxUpd = 3
  MaxInst = 4
  MaxCrash = 2
  MaxFail = 1
  MaxUnload = 1
  Bug = "none"
  Depth = 0
INVARIANTS Durable Visible Integrated
PROPERTIES Atomic
VIEW view
CHECK_DEADLOCK FALSE
