SPECIFICATION Spec
CONSTANTS
  MaxKids = 2
  MaxClock = 1
INVARIANT Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
