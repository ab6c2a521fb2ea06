SPECIFICATION Spec
CONSTANTS
  W = 10
INVARIANTS Balanced Closest
CHECK_DEADLOCK FALSE
