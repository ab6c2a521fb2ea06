SPECIFICATION Spec
CONSTANTS
  Buf = 8
  Widths = {2}
  MaxDraws = 6
  MaxSamplers = 3
  Reseed = TRUE
INVARIANTS NoReuse InOrder NoSkip
CHECK_DEADLOCK FALSE
