SPECIFICATION Spec
CONSTANTS
  MaxFields = 3
  MaxReps = 2
INVARIANT Says
CHECK_DEADLOCK FALSE
