SPECIFICATION Spec
CONSTANTS
  W = 6
INVARIANTS Balanced Closest Unique
CHECK_DEADLOCK FALSE
