SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "tags"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
