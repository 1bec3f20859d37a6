SPECIFICATION Spec
CONSTANTS SUITES = {"units"}
 MAXUNITS = 11
INVARIANT Law
CHECK_DEADLOCK FALSE
