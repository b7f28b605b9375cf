SPECIFICATION Spec
CONSTANTS
  Chars = {95, 97, 90, 49, 233}
  MaxLen = 5
INVARIANT Same
INVARIANT RoundTrip
INVARIANT EitherCase
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
