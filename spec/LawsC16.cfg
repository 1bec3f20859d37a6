SPECIFICATION Spec
CONSTANTS KINDS = {"type", "parameter"}
 HEADERS = {}
 TYPES = {"mixed", "related", "text", "any", "named", "other", "others", "long", "short30", "short31"}
 BODIES = {}
 DELTAS = {"low", "high", "drop", "again"}
 VERSIONS = {1, 2, 3, 4}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
