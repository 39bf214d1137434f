INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvR01
INVARIANT InvR02
PROPERTY PropR01
PROPERTY PropR02
CHECK_DEADLOCK FALSE
