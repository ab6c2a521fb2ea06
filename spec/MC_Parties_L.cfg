SPECIFICATION Spec
CONSTANTS
  Parties = 3
  Q = 3
  MaxOps = 3
INVARIANTS Correct Inside Missing
CHECK_DEADLOCK FALSE
