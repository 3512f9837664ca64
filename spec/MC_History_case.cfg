SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "case"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
