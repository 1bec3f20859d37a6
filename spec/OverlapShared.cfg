SPECIFICATION Spec
CONSTANTS N = 3
 Steps = 4
 Limit = 6
 Shared = TRUE
 Fresh = TRUE
INVARIANTS Alone
VIEW View
CHECK_DEADLOCK FALSE
