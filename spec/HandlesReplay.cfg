INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANT NoReplay
CHECK_DEADLOCK FALSE
