SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Kind = "focus"
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
