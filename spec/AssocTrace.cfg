SPECIFICATION Spec
INVARIANT WellFormed
PROPERTY OnlyTargets
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
