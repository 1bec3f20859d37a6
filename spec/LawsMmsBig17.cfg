SPECIFICATION Spec
CONSTANTS KINDS = {"message"}
 HEADERS = {"least", "drawn", "usual", "old", "answer", "report"}
 TYPES = {"mixed", "related", "text", "any", "named", "other", "others", "long"}
 BODIES = {"none"}
 DELTAS = {"low", "high", "drop", "again"}
 VERSIONS = {}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
