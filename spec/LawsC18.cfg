SPECIFICATION Spec
CONSTANTS KINDS = {"message"}
 HEADERS = {"least"}
 TYPES = {"mixed"}
 BODIES = {"none", "one", "two", "big", "same"}
 DELTAS = {"low", "high", "drop", "again"}
 VERSIONS = {}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
