SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2, 3}
  MaxReqs = 2
  MaxWork = 2
  MaxSkip = 0
  Refuse = FALSE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
