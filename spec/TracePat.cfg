SPECIFICATION TSpec
VIEW TView
POSTCONDITION Done
CHECK_DEADLOCK FALSE
