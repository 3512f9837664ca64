SPECIFICATION Spec
INVARIANTS Laws Generated
CHECK_DEADLOCK FALSE
