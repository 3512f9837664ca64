SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "errors"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
