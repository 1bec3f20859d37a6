"""What each check covers and what it takes for granted (goes to MANIFEST.json
and to the evidence files)."""
COMMON = ("The driver's projection of Python values (drv/common.py) and TLC are trusted; "
          "the interpreter is Jython 2.7.")
NOTE = {
 "C01": ("Every BMP character, byte and escape pair in every policy, plus sampled texts, is decided by the code "
         "tables of the specification.", "Characters beyond the BMP are sampled; lone surrogates cannot be made here."),
 "C02": ("Every PDU of sampled combinations of settings is parsed octet by octet by the specification.",
         "Combinations of settings are sampled, single settings swept."),
 "C03": ("All lengths around the limits, escapes at every place near a boundary, and sampled texts; the split is a "
         "relation of the specification, so any split allowed by the statement is accepted.",
         "Texts in between the limits are sampled."),
 "C04": ("The session state machine is model-checked; its behaviours up to a bound and long random walks are replayed "
         "into the code and every step judged.", "Concurrent use of one object is not considered."),
 "C05": ("Every octet's breakpoint with its neighbours, every quarter-hour offset, sampled dates.",
         "Dates between the swept ones are sampled."),
 "C06": ("Valid and invalid values are offered at every point of sampled sessions.", "Offered values are sampled."),
 "C07": ("Swept number types, digit counts, codings, zones; sampled combinations.", "Combinations are sampled."),
 "C08": ("All lengths and fill-bit positions; sampled headers and texts.", "Combinations are sampled."),
 "C09": ("All 256 statuses, valid and invalid dates, truncations.", "Combinations are sampled."),
 "C10": ("Sampled sequences of elements, all known element kinds at all places among others.",
         "Sequences are sampled."),
 "C11": ("The network is model-checked; its behaviours up to a bound and random traffic are replayed through the real "
         "encoder and decoder.", "The service centre and the collecting receiver are the specification's."),
 "C12": ("Behaviours of assignments up to a bound, all truncations of and corruptions in sampled PDUs.",
         "PDUs are sampled."),
 "C13": ("All lengths up to 160, all single octets, sampled contents.", "Contents are sampled."),
 "C14": ("All call sequences up to a bound over several underlying sequences, plus random longer ones.",
         "Nothing further."),
 "C15": ("Every primitive over its boundary values, every octet and every assigned number; sampled large values.",
         "Values between boundaries are sampled. Text is WSP TEXT; control characters elsewhere are left open."),
 "C16": ("Every media type, every length around the length encodings, sampled parameter sets; the octets must be "
         "those of the specification for some order of the parameters; single parameters and tables in all four encoding "
         "versions.", "Parameter sets are sampled."),
 "C17": ("All types with all destinations, all combinations of missing and prefixed leading headers, every length "
         "around the length encodings; sampled sets of headers.", "Sets of headers are sampled; headers without an "
         "encoder in the library are left out."),
 "C18": ("Sampled arrangements of pages and parts, every data length around the length encodings, up to 200 parts.",
         "Arrangements are sampled; media types are guessed from file names by the standard library."),
 "C19": ("The session state machine is model-checked; its behaviours up to a bound and long random walks are replayed "
         "into real messages; every result is predicted from the state, compared with earlier results and followed by a "
         "look at the whole message, also while its files are out of reach; what a caller was given is changed by him.", "The Transaction-Id is never left to be chosen at random; media files change "
         "only after they were read."),
 "C20": ("Sampled sequences of pages with all subsets of media and times around the duration; the document is read by "
         "the XML parser of the Java library.", "Texts that XML cannot hold are left out; pages are sampled."),
 "C21": ("Sampled sessions of valid and invalid calls on pages and parts, each followed by a look at the whole object, also "
         "while its files are out of reach.",
         "Offered values are sampled."),
 "C22": ("Every type octet, every header length up to 300 octets and around the length encodings, padded and not, with "
         "header blocks that look like messages; sampled notifications and other messages.",
         "Messages are sampled; Unicode strings are neither required to be accepted nor to be refused."),
 "C23": ("Every token octet, every number length, text lengths around the length encodings, all ordered pairs of headers, "
         "the captured messages of the repository, and sampled messages built by an encoder of the check's own.",
         "Texts in character sets other than ISO 8859-1 are plain ASCII; part headers the library does not know are only "
         "required not to disturb the data."),
 "C24": ("Every decoder on every first octet with no, one and several octets after it, sampled legal, damaged and random "
         "sequences, sessions of attempts with different decoders on one iterator, whole messages damaged at random.",
         "Termination is observed with a limit of 30 s per call; longer sequences are sampled."),
 "C25": ("The network is model-checked; its behaviours up to a bound and random traffic carry sampled pushes through the "
         "real SMS decoder and the real unwrapping.", "The collecting receiver is the specification's; messages are sampled."),
 "C26": ("The conversation is model-checked; its behaviours up to a bound and long random walks are replayed through "
         "real clients and an MMSC of the check's own.", "The MMSC is the specification's; contents are sampled."),
 "C28": ("The exchange is model-checked, with what must finally happen to every part; its behaviours up to a bound and "
         "long random walks, and random traffic of several subscribers, are replayed through real senders and recipients "
         "and a service centre of the check's own that goes by the octets.",
         "The service centre and the collecting recipients are the specification's; contents are sampled."),
 "C27": ("Schedules from the specification run the drivers of twenty-three other properties together, on a library "
         "loaded afresh for each world, statement by statement of the library and most often where a statement touches "
         "what all users share, with calls dropped and made again; every call is explained by the specification of "
         "its own user. Two designs that share a place to work are model-checked to fail.",
         "Calls are interrupted between statements, not inside one; objects are not shared by users; schedules are "
         "sampled."),
}
