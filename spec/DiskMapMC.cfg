SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
          Vals = {1, 2}
INVARIANTS Refines Lookups NoTombInFile
CHECK_DEADLOCK FALSE
