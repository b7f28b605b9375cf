SPECIFICATION Spec
CONSTANTS
  Names = {0, 1}
  Sources = {0, 1}
  Bad = {9}
  MaxWrites = 2
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
