SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
