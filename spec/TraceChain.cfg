SPECIFICATION TSpec
CONSTANTS
  Handles = {0, 1, 2, 3}
  Keys = {}
  Vals = {}
  Lists = {}
VIEW TView
POSTCONDITION Done
CHECK_DEADLOCK FALSE
