SPECIFICATION Spec
CONSTANTS
  MaxUpd = 3
  MaxInst = 4
  MaxCrash = 2
  MaxFail = 2
  MaxUnload = 2
  Bug = "noclean"
  Depth = 0
INVARIANTS Durable Visible Integrated
PROPERTIES Atomic
VIEW view
CHECK_DEADLOCK FALSE
