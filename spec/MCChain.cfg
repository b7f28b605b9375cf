SPECIFICATION Spec
CONSTANTS
  Handles = {0, 1}
  Keys = {1, 2}
  Vals = {1, 2}
  Lists <- MCLists
  MaxOps = 0
  MaxVal = 2
  MaxStack = 2
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTIES Refines Isolation
CHECK_DEADLOCK FALSE
