SPECIFICATION LiveSpec
CONSTANTS
  Threads = {1, 2}
  Locks = {1}
INVARIANT Inv
PROPERTY Returns
CHECK_DEADLOCK FALSE
