SPECIFICATION Spec
CONSTANTS
  MaxRaw = 4
  MaxDepth = 2
  Segs <- MCSegs
INVARIANT Same
PROPERTY Laws
ACTION_CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
