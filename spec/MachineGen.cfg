SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
