SPECIFICATION Spec
CONSTANTS SUITES = {"seconds", "days", "zones"}
 MAXUNITS = 11
INVARIANT Law
CHECK_DEADLOCK FALSE
