SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxLen = 2
  MaxEntries = 4
INVARIANT Longest
CHECK_DEADLOCK FALSE
