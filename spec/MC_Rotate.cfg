SPECIFICATION Spec
CONSTANTS N = 2
 F = 2
 Blocks = 2
 BS = 1
 Q = 13
 OneHot = TRUE
INVARIANTS Absorbed Position
CHECK_DEADLOCK FALSE
