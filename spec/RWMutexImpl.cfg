SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Locks = {1}
INVARIANT Inv
CHECK_DEADLOCK FALSE
