SPECIFICATION CSpec
PROPERTY OnlyTargets
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
