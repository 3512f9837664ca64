SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Figs = {1, 2}
  Calls = 2
  Mode = "atomic"
INVARIANTS Unique OnePerCall InOrder Handed
CHECK_DEADLOCK FALSE
