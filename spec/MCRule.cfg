SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Wide = TRUE
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
