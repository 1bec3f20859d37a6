SPECIFICATION Spec
CONSTANTS SUITES = {"text", "codes"}
 MAXUNITS = 11
INVARIANT Law
CHECK_DEADLOCK FALSE
