SPECIFICATION Spec
INVARIANTS LastGiven SeenWhenComplete
CHECK_DEADLOCK FALSE
