SPECIFICATION Spec
CONSTANTS N = 4
 F = 2
 Blocks = 1
 BS = 2
 Q = 13
 OneHot = TRUE
INVARIANTS Absorbed Position
CHECK_DEADLOCK FALSE
