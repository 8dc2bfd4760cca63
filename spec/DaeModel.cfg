SPECIFICATION Spec
INVARIANTS AcceptedLaw ProgLaw
CHECK_DEADLOCK FALSE
