SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "errors"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
