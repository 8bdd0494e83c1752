SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
          Vals = {1}
INVARIANTS Contains2
CHECK_DEADLOCK FALSE
