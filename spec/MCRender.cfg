SPECIFICATION Spec
CONSTANTS
  MaxN = 3000
  MaxSeq = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
