SPECIFICATION Spec
CONSTANTS
  Writers = {w1, w2}
  GroupNames = {g1, g2}
  Corpora = {c1, c2}
  MaxRequests = 3
  Atomic = TRUE
  Cascade = TRUE
  Replace = TRUE
INVARIANTS TypeOK NoOrphans AsRequested
CHECK_DEADLOCK FALSE
