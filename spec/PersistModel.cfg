SPECIFICATION Spec
INVARIANT OwnLine
CHECK_DEADLOCK FALSE
