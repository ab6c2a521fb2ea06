SPECIFICATION Spec
CONSTANTS
  Buf = 8
  Widths = {1, 3, 8}
  MaxDraws = 5
  MaxSamplers = 2
  Reseed = TRUE
INVARIANTS NoReuse InOrder NoSkip
CHECK_DEADLOCK FALSE
