SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Jails = 2
  Guarded = TRUE
  RestoreFirst = TRUE
INVARIANTS Exclusive Isolated Clean StartsClean
CHECK_DEADLOCK FALSE
