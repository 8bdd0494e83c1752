SPECIFICATION Spec
CONSTANTS
  MaxUpd = 4
  MaxInst = 6
  MaxCrash = 3
  MaxFail = 2
  MaxUnload = 2
  Bug = "none"
  Depth = 0
INVARIANTS Durable Visible Integrated
PROPERTIES Atomic
VIEW view
CHECK_DEADLOCK FALSE
