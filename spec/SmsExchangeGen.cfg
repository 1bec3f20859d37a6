CONSTANTS NMSGS = 3
  SPLIT = 2
  COPIES = 2
  ENDOFTIME = 8
  HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
