INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvG01
PROPERTY PropG01
PROPERTY PropG02
PROPERTY PropG03
CHECK_DEADLOCK FALSE
