SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kind = "focus"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
