SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4}
  MaxLen = 5
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
