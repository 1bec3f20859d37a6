SPECIFICATION Spec
CONSTANT MAXLEN = 5
INVARIANTS Agree Refines NothingLost Emit
CHECK_DEADLOCK FALSE
