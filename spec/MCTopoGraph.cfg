SPECIFICATION GraphSpec
INVARIANT GraphSort
CONSTANTS
  Elems = {1, 2, 3}
  MaxReqs = 2
  MaxWork = 2
  MaxSkip = 0
  Refuse = FALSE
CHECK_DEADLOCK FALSE
