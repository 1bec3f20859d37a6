SPECIFICATION Spec
CONSTANTS SUITES = {"numbers", "lengths", "strings", "versions"}
INVARIANT Law
CHECK_DEADLOCK FALSE
