SPECIFICATION Spec
CONSTANTS MAXDUP = 2
 POOL = 4
INVARIANTS Emit NoMix Whole
CHECK_DEADLOCK FALSE
