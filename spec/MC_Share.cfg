SPECIFICATION Spec
CONSTANTS
  Procs = 3
  Calls = 3
  Steps = 3
  SharedBuffer = FALSE
INVARIANTS AsAlone KeyKept Private
CHECK_DEADLOCK FALSE
