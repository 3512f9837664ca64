CONSTANTS
  Kind = "env"
  Depth = 5
SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
