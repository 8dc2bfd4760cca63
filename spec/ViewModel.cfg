SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
