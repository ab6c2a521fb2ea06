SPECIFICATION TSpec
POSTCONDITION Acc
CHECK_DEADLOCK FALSE
