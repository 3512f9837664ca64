SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "layers"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
