SPECIFICATION Spec
CONSTANTS ELEMENTS = 3
 UNKNOWN = {10, 112}
INVARIANTS ReadBack Cuts Unordered Alone Determined
CHECK_DEADLOCK FALSE
