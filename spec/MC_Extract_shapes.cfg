CONSTANT Kind = "shapes"
SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
