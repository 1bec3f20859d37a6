SPECIFICATION Spec
CONSTANTS Changes = {"P", "D", "H"}
 Looks = {"e", "s", "l"}
INVARIANTS TypeOK Repeatable WholeFiles Emit
CHECK_DEADLOCK FALSE
