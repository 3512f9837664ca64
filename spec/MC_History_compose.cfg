SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "compose"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
