CONSTANT Kind = "all"
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Generated
CHECK_DEADLOCK FALSE
