SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "layers"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
