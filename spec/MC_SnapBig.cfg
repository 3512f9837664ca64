CONSTANT Depth = 6
SPECIFICATION Spec
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
