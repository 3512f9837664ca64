SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Figs = {1}
  Calls = 2
  Mode = "split"
INVARIANTS Unique
CHECK_DEADLOCK FALSE
