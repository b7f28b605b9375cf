SPECIFICATION Spec
CONSTANTS
  Paths = {0, 1, 2}
  Stores = {0, 1}
INVARIANT OneToOne
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
