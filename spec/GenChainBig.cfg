SPECIFICATION GSpec
CONSTANTS
  Handles = {0, 1}
  Keys = {1, 2}
  Vals = {1,2}
  Lists <- MCLists
  MaxOps = 0
  MaxVal = 2
  MaxStack = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
