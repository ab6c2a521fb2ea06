SPECIFICATION Spec
CONSTANTS
  N = 8
  Q = 4
  Down = TRUE
INVARIANTS Half Only
CHECK_DEADLOCK FALSE
