SPECIFICATION Spec
CONSTANTS ELEMENTS = 4
 UNKNOWN = {10, 112}
INVARIANTS ReadBack Cuts Unordered Alone Determined
CHECK_DEADLOCK FALSE
