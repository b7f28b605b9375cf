SPECIFICATION Spec
CONSTANTS
  Universe <- MCUniverse
  MaxFiles = 7
INVARIANT Same
ACTION_CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
