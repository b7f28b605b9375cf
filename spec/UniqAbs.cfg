SPECIFICATION Spec
CONSTANTS
  Makers = {0, 1, 2}
  MaxMade = 4
INVARIANT NeverRepeats
INVARIANT NeverStuck
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
