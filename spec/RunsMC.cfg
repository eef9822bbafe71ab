SPECIFICATION Spec
INVARIANT Agree
CONSTANTS N = 4
 V = 4
CHECK_DEADLOCK FALSE
