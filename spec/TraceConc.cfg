SPECIFICATION Spec
CONSTANTS
  VaultSlots = {1, 2, 3}
  SetSlots = {1, 2, 3, 4, 5, 6}
  RefSlots = {1, 2, 3, 4, 5, 6}
  MaxValOf <- MaxVals
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
