SPECIFICATION Spec
CONSTANTS KINDS = {"message"}
 HEADERS = {"least", "usual", "old"}
 TYPES = {"mixed", "related", "long"}
 BODIES = {"none", "one", "two", "big", "same"}
 DELTAS = {"low", "nibble", "high", "drop", "again"}
 VERSIONS = {}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
