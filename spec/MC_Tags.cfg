SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Figs = {1}
  Calls = 2
  Mode = "atomic"
INVARIANTS Unique OnePerCall InOrder Handed Combined
CHECK_DEADLOCK FALSE
