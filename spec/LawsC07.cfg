SPECIFICATION Spec
CONSTANTS KINDS = {"deliver"}
 CENTRES = {"none", "odd", "even"}
 SENDERS = {"even", "odd", "long", "name1", "name7", "name8", "name11"}
 CODINGS = {"gsm", "class", "store", "eight", "flash", "ucs", "ucs-class", "mwi"}
 HEADERS = {"none"}
 TEXTS = {"at"}
 STAMPS = {"utc", "east"}
 STATUSES = {0}
 DELTAS = {"low"}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
