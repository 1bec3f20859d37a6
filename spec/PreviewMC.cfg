SPECIFICATION Spec
CONSTANT MAXLEN = 3
INVARIANTS Agree Refines NothingLost Emit
CHECK_DEADLOCK FALSE
