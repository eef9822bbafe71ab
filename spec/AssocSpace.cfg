SPECIFICATION PSpec
PROPERTY OnlyTargets
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
