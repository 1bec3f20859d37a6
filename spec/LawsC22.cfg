SPECIFICATION PSpec
CONSTANTS KINDS = {"message"}
 HEADERS = {"usual", "old"}
 TYPES = {"related"}
 BODIES = {"two"}
 DELTAS = {}
 VERSIONS = {}
 LENGTHS = {0, 1, 2, 30, 127, 128, 129, 300}
 BLOCKS = {"zeros", "high", "type", "message"}
 PADS = {0, 1, 2}
 TYPEOCTETS = {0, 6, 7, 134}
INVARIANTS Unwrapped CutShort Notifications
CHECK_DEADLOCK FALSE
