SPECIFICATION LSpec
INVARIANT WellFormed
PROPERTY OnlyTargets
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
