SPECIFICATION SpecS
INVARIANT MostRecent
INVARIANT AllOK
CHECK_DEADLOCK FALSE
INVARIANT Symmetric
