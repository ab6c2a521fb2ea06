SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 4}
  Trail = 3
INVARIANTS Exact Truncated Reported Whole
CHECK_DEADLOCK FALSE
