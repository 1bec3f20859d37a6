SPECIFICATION Spec
INVARIANTS OnlyTheLast Emit
CHECK_DEADLOCK FALSE
