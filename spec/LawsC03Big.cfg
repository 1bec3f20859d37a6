SPECIFICATION Spec
CONSTANTS NUMBERS = {"odd", "even", "long"}
 CSCAS = {"none", "odd", "even"}
 TEXTS = {"empty", "short", "seven", "eight", "full", "escape", "two", "ucs", "ucs70", "ucs2", "oct", "oct140", "oct2"}
 FMTS = {0, 1, 5, 9}
 KLASSES = {0, 1, 4}
 PIDS = {0, 127}
 VALIDITIES = {"none", "rel", "most", "east", "west"}
 REFS = {0, 300}
 DELTAS = {}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
