SPECIFICATION Spec
CONSTANTS
  Texts <- Tiny
  Inserts <- Ins
  MaxEdits = 2
  MaxTextLen = 5
INVARIANT Agree
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
