INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropP01
PROPERTY PropP02
PROPERTY PropN01
PROPERTY PropK01
CHECK_DEADLOCK FALSE
