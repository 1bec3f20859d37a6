CONSTANTS NMSGS = 3
  SPLIT = 1
  COPIES = 2
  ENDOFTIME = 2
  HISTORY = FALSE
SPECIFICATION Spec
INVARIANTS InTime Truthful NoReturn Causal
PROPERTY Final
CHECK_DEADLOCK FALSE
