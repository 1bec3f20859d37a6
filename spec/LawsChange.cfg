SPECIFICATION Spec
CONSTANTS NUMBERS = {"odd"}
 CSCAS = {"even"}
 TEXTS = {"eight", "escape", "ucs2"}
 FMTS = {0}
 KLASSES = {1}
 PIDS = {127}
 VALIDITIES = {"east"}
 REFS = {300}
 DELTAS = {"low", "high", "drop", "again"}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
