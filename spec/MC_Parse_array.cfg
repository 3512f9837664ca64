CONSTANT Kind = "array"
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Generated
CHECK_DEADLOCK FALSE
