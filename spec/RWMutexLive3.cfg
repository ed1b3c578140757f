SPECIFICATION LiveSpec
CONSTANTS
  Threads = {1, 2, 3}
  Locks = {1}
INVARIANT Inv
PROPERTY Returns
CHECK_DEADLOCK FALSE
