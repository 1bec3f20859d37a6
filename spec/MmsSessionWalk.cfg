SPECIFICATION Spec
CONSTANTS Changes = {"P", "D", "H", "X", "C", "M", "O", "S"}
 Looks = {"e", "s", "l"}
INVARIANTS TypeOK Repeatable WholeFiles Emit
CHECK_DEADLOCK FALSE
