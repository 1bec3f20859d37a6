SPECIFICATION Spec
CONSTANTS NUMBERS = {"odd"}
 CSCAS = {"even"}
 TEXTS = {"short","eight","escape","ucs2","oct2"}
 FMTS = {0, 5}
 KLASSES = {1}
 PIDS = {127}
 VALIDITIES = {"rel","east"}
 REFS = {300}
 DELTAS = {"low","nibble","high","drop","again"}
INVARIANTS Satisfied Determined
CHECK_DEADLOCK FALSE
