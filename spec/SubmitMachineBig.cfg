SPECIFICATION Spec
CONSTANTS POOL = 5
 RECORD = TRUE
INVARIANTS FunctionOfSettings Fresh
PROPERTIES OnlyAssigned RefusalKeeps ReferenceStays
CHECK_DEADLOCK FALSE
