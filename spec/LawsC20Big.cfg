SPECIFICATION Spec
CONSTANTS ITEMS = {"no", "named", "id", "both", "bare"}
 TIMES = {"none", "begin", "end", "both", "late"}
 DURATIONS = {1, 4000}
 SIZES = {"usual", "small"}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
