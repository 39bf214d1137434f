INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvM01
INVARIANT InvM03
INVARIANT InvM06
INVARIANT InvM07
PROPERTY PropM01
PROPERTY PropM02
PROPERTY PropM03
PROPERTY PropM04
PROPERTY PropM05
PROPERTY PropM06
PROPERTY PropM07
PROPERTY PropM08
PROPERTY PropM09
CHECK_DEADLOCK FALSE
