SPECIFICATION Spec
CONSTANTS SUITES = {"units"}
 MAXUNITS = 13
INVARIANT Law
CHECK_DEADLOCK FALSE
