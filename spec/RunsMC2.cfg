SPECIFICATION Spec
INVARIANT Agree
CONSTANTS N = 3
 V = 3
CHECK_DEADLOCK FALSE
