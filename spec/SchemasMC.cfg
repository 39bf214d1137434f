INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvS03
PROPERTY PropS01
PROPERTY PropS02
PROPERTY PropS03
CHECK_DEADLOCK FALSE
