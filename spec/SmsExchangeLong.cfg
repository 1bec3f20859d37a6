CONSTANTS NMSGS = 2
  SPLIT = 2
  COPIES = 1
  ENDOFTIME = 3
  HISTORY = FALSE
SPECIFICATION Fair
INVARIANTS InTime Truthful NoReturn Causal
PROPERTIES Final Ends Heard
CHECK_DEADLOCK FALSE
