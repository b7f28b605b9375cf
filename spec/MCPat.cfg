SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2, 3, 4, 5, 6}
  MaxRows = 2
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
