SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "tags"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
