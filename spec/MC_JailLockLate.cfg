SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Jails = 2
  Guarded = TRUE
  RestoreFirst = FALSE
INVARIANTS StartsClean
CHECK_DEADLOCK FALSE
