SPECIFICATION Spec
CONSTANTS SUITES = {"octets", "digits", "septets"}
 MAXUNITS = 11
INVARIANT Law
CHECK_DEADLOCK FALSE
