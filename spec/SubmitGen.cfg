SPECIFICATION GSpec
CONSTANTS POOL = 3
 RECORD = FALSE
INVARIANTS Emit FunctionOfSettings
CHECK_DEADLOCK FALSE
