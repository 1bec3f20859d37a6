SPECIFICATION Spec
CONSTANTS N = 3
 Steps = 4
 Limit = 6
 Shared = FALSE
 Fresh = TRUE
INVARIANTS Emit Alone
CHECK_DEADLOCK FALSE
