SPECIFICATION Spec
CONSTANTS KINDS = {"deliver", "report"}
 CENTRES = {"none", "odd"}
 SENDERS = {"even", "odd", "name8", "name7"}
 CODINGS = {"gsm", "eight", "ucs"}
 HEADERS = {"none", "c8", "p16", "mixed"}
 TEXTS = {"empty", "at", "eight", "wide"}
 STAMPS = {"west", "east"}
 STATUSES = {0, 48, 64, 999}
 DELTAS = {"low", "high", "drop", "again"}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
