CONSTANTS
  Kind = "moves"
  Depth = 5
SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
