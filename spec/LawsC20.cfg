SPECIFICATION Spec
CONSTANTS ITEMS = {"no", "named", "id"}
 TIMES = {"none", "begin", "end", "both", "late"}
 DURATIONS = {1, 4000}
 SIZES = {"usual", "small"}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
