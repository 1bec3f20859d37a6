CONSTANT COPIES = 1
SPECIFICATION Spec
INVARIANTS Delivered Refused Causal Forwarded
PROPERTY Final
VIEW NoHistory
CHECK_DEADLOCK FALSE
