SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Locks = {1, 2}
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
