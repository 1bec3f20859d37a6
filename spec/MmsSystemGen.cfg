CONSTANT COPIES = 2
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
