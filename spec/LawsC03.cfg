SPECIFICATION Spec
CONSTANTS NUMBERS = {"odd", "long"}
 CSCAS = {"none", "odd"}
 TEXTS = {"empty", "short", "seven", "eight", "full", "escape", "two", "ucs", "ucs70", "ucs2", "oct", "oct140", "oct2"}
 FMTS = {0, 5}
 KLASSES = {0, 4}
 PIDS = {127}
 VALIDITIES = {"none", "rel", "west"}
 REFS = {300}
 DELTAS = {}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
