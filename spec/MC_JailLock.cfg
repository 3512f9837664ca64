SPECIFICATION FairSpec
CONSTANTS
  Threads = {1, 2, 3}
  Jails = 2
  Guarded = TRUE
  RestoreFirst = TRUE
INVARIANTS Exclusive Isolated Clean StartsClean
PROPERTY NoneBlocked
CHECK_DEADLOCK FALSE
