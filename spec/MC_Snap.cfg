CONSTANT Depth = 5
SPECIFICATION Spec
INVARIANTS Laws Generated
PROPERTY Snapshot
CHECK_DEADLOCK FALSE
