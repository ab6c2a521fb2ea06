SPECIFICATION Spec
CONSTANTS
  Buf = 8
  Widths = {2}
  MaxDraws = 3
  MaxSamplers = 2
  Reseed = FALSE
INVARIANTS NoReuse
CHECK_DEADLOCK FALSE
