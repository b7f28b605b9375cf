SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxMarks = 3
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
