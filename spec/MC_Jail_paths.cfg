CONSTANTS
  Kind = "paths"
  Depth = 4
SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
