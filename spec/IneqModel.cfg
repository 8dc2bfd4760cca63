SPECIFICATION Spec
INVARIANTS Aligned InOrder AbsentIsInfinite
CHECK_DEADLOCK FALSE
