SPECIFICATION Spec
CONSTANTS POOL = 2
 RECORD = TRUE
INVARIANTS FunctionOfSettings Fresh
PROPERTIES OnlyAssigned RefusalKeeps ReferenceStays
CHECK_DEADLOCK FALSE
