SPECIFICATION Spec
CONSTANTS
  W = 9
  MaxP = 9
INVARIANTS Single Sum Bool WrapOK
CHECK_DEADLOCK FALSE
