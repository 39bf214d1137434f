INIT Init
NEXT NextD
VIEW View
PROPERTY PropM10
INVARIANT Inv
CHECK_DEADLOCK FALSE
