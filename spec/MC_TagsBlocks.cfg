SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Figs = {1}
  Calls = 2
  Mode = "blocks"
INVARIANTS Unique OnePerCall InOrder Handed
CHECK_DEADLOCK FALSE
