SPECIFICATION Spec
CONSTANTS Changes = {"P", "H"}
 Looks = {"e", "s"}
INVARIANTS TypeOK Repeatable WholeFiles
PROPERTIES LooksChangeNothing FilesKept
CHECK_DEADLOCK FALSE
