CONSTANTS
  Kind = "env"
  Depth = 6
SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
