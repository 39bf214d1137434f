SPECIFICATION Spec
CONSTANT N = 7
INVARIANT NoDuplicates
INVARIANT Remaining
INVARIANT Complete
PROPERTY PrefixStable
CHECK_DEADLOCK FALSE
