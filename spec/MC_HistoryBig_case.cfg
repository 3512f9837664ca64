SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "case"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
