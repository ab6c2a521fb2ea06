SPECIFICATION Spec
CONSTANTS
  N = 4
  Q = 8
  Down = TRUE
INVARIANTS Half Only
CHECK_DEADLOCK FALSE
