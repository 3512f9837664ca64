SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Jails = 2
  Guarded = FALSE
  RestoreFirst = TRUE
INVARIANTS Exclusive
CHECK_DEADLOCK FALSE
