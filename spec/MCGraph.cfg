SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANT Consistent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
