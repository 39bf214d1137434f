INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvH03
INVARIANT InvH04
PROPERTY PropH05
PROPERTY PropH06
PROPERTY PropH04
CHECK_DEADLOCK FALSE
