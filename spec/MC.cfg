INIT Init
NEXT Next
VIEW StateView
INVARIANT Invariant
ACTION_CONSTRAINT ActionConstraint
CHECK_DEADLOCK FALSE
