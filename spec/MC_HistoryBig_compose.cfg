SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "compose"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
