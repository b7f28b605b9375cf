SPECIFICATION Spec
CONSTANTS
  Texts <- MCTexts
  MaxOps = 6
  MaxMarks = 2
  MaxOver = 2
INVARIANT Same
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
