SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 10, 233, 12513, 128512}
  MaxLen = 5
INVARIANTS OneToOne DesignPos DesignOff
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
