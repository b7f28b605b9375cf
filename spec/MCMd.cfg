SPECIFICATION Spec
CONSTANTS
  LineSet <- MCLineSet
  MaxLines = 3
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
