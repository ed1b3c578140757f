SPECIFICATION Spec
INVARIANT Inv
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
