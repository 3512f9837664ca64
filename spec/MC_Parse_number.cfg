CONSTANT Kind = "number"
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Generated
CHECK_DEADLOCK FALSE
