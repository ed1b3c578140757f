SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Vaults = {1, 2}
  Locks = {0, 1, 2}
  Records = {r1}
  r1 = r1
  t1 = t1
  t2 = t2
INVARIANT Inv
SYMMETRY Symm
CHECK_DEADLOCK FALSE
