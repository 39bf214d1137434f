INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvT04
PROPERTY PropT01
PROPERTY PropT02
PROPERTY PropT03
PROPERTY PropT04
PROPERTY PropT05
CHECK_DEADLOCK FALSE
