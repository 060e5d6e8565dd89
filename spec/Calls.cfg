INIT Init
NEXT Next
INVARIANT Lives
CONSTRAINT Few
VIEW vars
CHECK_DEADLOCK FALSE
