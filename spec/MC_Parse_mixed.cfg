CONSTANT Kind = "mixed"
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Generated
CHECK_DEADLOCK FALSE
