INIT Init
NEXT Next
INVARIANT Invariant
ACTION_CONSTRAINT ActionConstraint
CHECK_DEADLOCK FALSE
