INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvC01
INVARIANT InvC02
INVARIANT InvC03
INVARIANT InvC04
PROPERTY PropC01
PROPERTY PropC02
PROPERTY PropC03
PROPERTY PropC04
CHECK_DEADLOCK FALSE
