CONSTANT Kind = "dict"
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Generated
CHECK_DEADLOCK FALSE
