SPECIFICATION Spec
CONSTANTS KINDS = {"report"}
 CENTRES = {"none", "odd", "long"}
 SENDERS = {"even", "odd", "long", "name1", "name7", "name8", "name11"}
 CODINGS = {"gsm"}
 HEADERS = {"none"}
 TEXTS = {"empty"}
 STAMPS = {"utc", "east", "west", "leap"}
 STATUSES = {0, 48, 64, 127, 255, 999}
 DELTAS = {"low"}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
