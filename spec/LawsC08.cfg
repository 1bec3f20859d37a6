SPECIFICATION Spec
CONSTANTS KINDS = {"deliver"}
 CENTRES = {"none"}
 SENDERS = {"odd"}
 CODINGS = {"gsm", "eight", "ucs"}
 HEADERS = {"none", "c8", "c16", "p8", "p16", "other", "mixed"}
 TEXTS = {"empty", "at", "eight", "wide", "fit"}
 STAMPS = {"leap"}
 STATUSES = {0}
 DELTAS = {"low", "drop"}
INVARIANTS Satisfied Determined EveryOctetMatters
CHECK_DEADLOCK FALSE
