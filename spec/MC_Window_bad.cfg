SPECIFICATION Spec
CONSTANTS
  MaxP = 6
  MaxL = 48
  MaxH = 4
  Cnts = {1}
  Slack = TRUE
INVARIANTS Right
CHECK_DEADLOCK FALSE
