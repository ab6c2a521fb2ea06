SPECIFICATION Spec
CONSTANTS
  Procs = 2
  Calls = 1
  Steps = 2
  SharedBuffer = TRUE
INVARIANTS AsAlone
CHECK_DEADLOCK FALSE
