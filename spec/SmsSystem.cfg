SPECIFICATION Spec
CONSTANTS MAXDUP = 2
 POOL = 4
INVARIANTS NoMix Whole Reads OnceEach
VIEW NoHistory
CHECK_DEADLOCK FALSE
