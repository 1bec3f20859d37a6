SPECIFICATION Spec
CONSTANTS OCTETS = {0, 1, 2, 31, 34, 65, 127, 128, 129, 131, 255}
 LENGTH = 4
INVARIANTS Total TakesOctets Prefix Anywhere Whole
CHECK_DEADLOCK FALSE
