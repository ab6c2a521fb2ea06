SPECIFICATION Spec
CONSTANTS N = 2
 F = 2
 Blocks = 1
 BS = 2
 Q = 13
 OneHot = FALSE
INVARIANTS Absorbed Position
CHECK_DEADLOCK FALSE
