INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropM10
INVARIANT Inv
CHECK_DEADLOCK FALSE
