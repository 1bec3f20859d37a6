#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SUB = "messaging/sms/submit.py"; DEL = "messaging/sms/deliver.py"; UT = "messaging/utils.py"
GSM = "messaging/sms/gsm0338.py"; UDH = "messaging/sms/udh.py"; WAP = "messaging/sms/wap.py"
IT = "messaging/mms/iterator.py"; MSG = "messaging/mms/message.py"
MMS = "messaging/mms/mms_pdu.py"; WSP = "messaging/mms/wsp_pdu.py"; CON = "messaging/sms/consts.py"

p("C01", "The GSM 03.38 codec is the exact, invertible standard mapping",
  "Encoding text with the 'gsm0338' codec gives every character of the GSM default alphabet its assigned 7-bit code and every extension-table character the escape code 0x1B followed by its code, and decoding gives back the same text; an escape followed by an unassigned code or by nothing decodes to U+00A0. "
  "A character outside the alphabet is refused with UnicodeError under 'strict', dropped under 'ignore', and under 'replace' becomes the code of its look-alike (Greek capitals that look Latin, c with cedilla) or '?'; a byte above 0x7F is refused, dropped or becomes '?' in the same way. "
  "The GSM-text predicate is true exactly for the texts strict encoding accepts.",
  ["inputs"], "for every Unicode character, every byte, every escape pair, every error policy, and every text composed of them",
  "The tests walk two hand-copied tables (the supported characters and the Greek capitals) one character at a time in one policy; most of the code points, all multi-character contexts and most of the decode error space are never tried.",
  [GSM], [("encode", "messaging/sms/gsm0338.py:encode"), ("decode", "messaging/sms/gsm0338.py:decode"), ("is_gsm_text", "messaging/sms/gsm0338.py:is_gsm_text")])

p("C02", "A SUBMIT PDU carries exactly the settings of the message",
  "Every PDU produced for a message parses, by the 3GPP TS 23.040 layout, into exactly the service centre, destination number and number type, message reference (modulo 256), protocol identifier, alphabet, message class, status-report request, validity-period format and header indicator that were set, with nothing before, between or after the fields. "
  "The PDU is upper-case hexadecimal, its length attribute is the number of octets after the service centre field, and its part count and sequence attributes number the parts 1..n in order.",
  ["inputs", "configurations"], "for every combination of number (3-20 digits, with or without '+'), service centre, class, validity, reference, protocol identifier, alphabet, status request and text length",
  "The tests pin about two dozen complete hex strings; combinations (class with validity with service centre with multipart, odd/even digit counts, all reference values) grow multiplicatively.",
  [SUB, UT, "messaging/sms/pdu.py"], [("SMSC, address, flags", "messaging/sms/submit.py:_get_smsc_pdu,_get_phone_pdu,_get_sms_submit_pdu"), ("assembly", "messaging/sms/submit.py:to_pdu"), ("length", "messaging/sms/pdu.py:Pdu")])

p("C03", "SUBMIT user data reproduces the text, split only where it must be",
  "Decoding the user data of the produced parts in order with the announced alphabet gives back exactly the text: GSM 7-bit unless the text needs UCS-2 or another alphabet was requested, within 140 octets of user data per PDU, with the user data length matching the data that follows and unused septets or bits zero. "
  "A text that fits one PDU (160 septets, 140 octets, 70 UCS-2 units) is sent as one without header; a longer one becomes parts carrying a correct 8-bit concatenation header (same reference, total count, sequence 1..n), each part full except that an escape is never separated from the code it escapes; more than 255 parts, or a text the alphabet cannot hold, raises ValueError or UnicodeError instead of producing a PDU.",
  ["inputs"], "for every text of the three alphabets, every length around and between the fragmentation limits and every placement of escape pairs, up to the 255-part limit",
  "Tests use a handful of texts; whether an escape or a limit falls exactly on a part boundary, and every length modulo the packing cycle, is a combinatorial input space.",
  [SUB, UT, CON], [("split", "messaging/sms/submit.py:_split_sms_message"), ("pack", "messaging/utils.py:pack_8bits_to_7bits,pack_8bits_to_8bit,pack_8bits_to_ucs2"), ("alphabet choice", "messaging/sms/submit.py:_get_msg_pdu")])

p("C04", "A SUBMIT message encodes its current settings whatever came before",
  "Whatever sequence of setting changes and encodings (successful or failed) preceded it, encoding a message object yields PDUs that depend only on the settings in force at that moment, and encoding twice without a change yields the same PDUs except for the automatically drawn concatenation reference. "
  "A message reference chosen automatically on first use stays the same until it is set, an explicitly set reference (taken modulo 256) is used as is, and automatically drawn concatenation references do not repeat among any 255 consecutive draws of one object.",
  ["histories"], "for every sequence of setter calls, encodings and failing calls on one message object, including more than 255 encodings",
  "Each test builds a fresh object and encodes it once, so no test can see state leaking from one encoding into the next.",
  [SUB], [("reference pool", "messaging/sms/submit.py:_get_rand_id"), ("to_pdu", "messaging/sms/submit.py:to_pdu,_get_msg_pdu")],
  [("message object", "number, csca, validity, class, format, references and the pool of automatic references")])

p("C05", "Validity periods are encoded as the standard value at or below the request",
  "A relative validity between 5 minutes and 63 weeks is encoded as the octet for the greatest representable period that does not exceed it, and one outside that range raises ValueError. "
  "An absolute validity is encoded as the seven TP-VP octets of exactly that local date, time and UTC offset (whole quarter hours, signed), and an offset given as '+hhmm', '-hhmm' or '' is understood as that many minutes east of UTC.",
  ["inputs"], "for every timedelta down to the microsecond, every datetime in 2000-2099 and every quarter-hour offset of either sign",
  "Tests sample a few round values and the offsets +3h and -3h; the encoding is a step function with 256 breakpoints in four regimes, and each field/sign combination of absolute times matters.",
  [UT, SUB], [("relative", "messaging/utils.py:timedelta_to_relative_validity"), ("absolute", "messaging/utils.py:datetime_to_absolute_validity"), ("offset", "messaging/utils.py:FixedOffset.from_timezone")])

p("C06", "Invalid settings are refused and leave the message unchanged",
  "Setting a destination or service centre number that is not an optional '+' followed by 3 to 20 digits, a message class that is not an integer 0-3, or a validity that is neither None, a timedelta nor a datetime raises ValueError or TypeError and leaves the previous value in force, while every valid value is accepted and read back unchanged. "
  "Encoding a validity outside the representable range or an unknown alphabet raises ValueError and does not change what a later encoding with valid settings produces.",
  ["inputs", "histories"], "for every value offered to each setting, at every point of the object's life",
  "The tests try one bad value for some settings on a fresh object and never look at the object afterwards.",
  [SUB], [("setters", "messaging/sms/submit.py:_set_number,_set_csca,_set_validity,_set_klass")])

p("C07", "A DELIVER PDU's header fields are decoded faithfully",
  "For every well-formed SMS-DELIVER PDU the decoder reports the service centre and the sender with all their digits and a '+' exactly for international numbers, an alphanumeric sender as its exact GSM text, the protocol identifier and data coding octets, the alphabet they announce, and the service centre time stamp converted exactly to UTC for any signed quarter-hour zone. "
  "Letter case of the hexadecimal input does not matter.",
  ["inputs"], "for every combination of number types, digit counts, alphanumeric senders, PID, DCS, time stamp and time zone",
  "About twenty captured PDUs are tested, most with the same zone, address type and coding.",
  [DEL, UT], [("header decode", "messaging/sms/deliver.py:_set_pdu"), ("semi-octets", "messaging/utils.py:swap_number,encode_bytes")])

p("C08", "A DELIVER PDU's text is decoded faithfully in all three alphabets",
  "For every well-formed SMS-DELIVER PDU the reported text is exactly the user data announced by the user data length, decoded as GSM 7-bit (septets after the fill bits that follow a user data header), as raw octets or as UCS-2 according to the coding octet, and never contains header octets or padding. "
  "The reported reference, count and sequence are those of the concatenation header when there is one and absent otherwise.",
  ["inputs"], "for every alphabet, text length 0-160, user data header of any length and information elements, and escape placement",
  "Captured PDUs cover few lengths modulo 8 and only the common 5-octet header; fill-bit arithmetic and length handling depend on all of them.",
  [DEL, UT, UDH], [("user data", "messaging/sms/deliver.py:_process_message"), ("septets", "messaging/utils.py:unpack_msg")])

p("C09", "Status reports are decoded faithfully",
  "For every well-formed SMS-STATUS-REPORT PDU the decoder reports the recipient number, the message reference, both time stamps as the local date and time they contain (none when a time stamp is not a valid date), the status octet, and an outcome label: success exactly for status 0x00, stored exactly for 0x30, unknown otherwise. "
  "A report that ends before the status octet is reported with no status and the unknown label, and the text combines recipient, submission time and, only when delivery is confirmed or the status is missing, the delivery time.",
  ["inputs"], "for every recipient, reference, pair of time stamps (valid or not) and status octet, with or without a status",
  "Four captured reports are tested, with statuses 0x00, 0x30 and none; 254 status values and invalid dates are untested.",
  [DEL], [("status report", "messaging/sms/deliver.py:_decode_status_report_pdu")])

p("C10", "User data headers are parsed element by element",
  "Parsing a user data header yields every information element's octets under its identifier, the 8-bit or 16-bit concatenation reference, count and sequence, and the 8-bit or 16-bit destination and originator ports, wherever those elements stand among others. "
  "Unknown elements of any length are carried along without affecting the known ones.",
  ["inputs"], "for every sequence of information elements, known or unknown, of any length and order",
  "Two header strings are tested.", [UDH], [("from_bytes", "messaging/sms/udh.py:UserDataHeader.from_bytes")])

p("C11", "A long message survives the network: parts reassemble to the text",
  "If each produced SUBMIT PDU is turned into a DELIVER PDU by a service centre and the DELIVER PDUs arrive in any order and with duplicates, mixed with parts of other messages, then a receiver that decodes them and collects parts by sender, reference and count recovers, exactly once all parts of a message have arrived, exactly the text that was sent, for every message. "
  "No part is ever attributed to another message whose reference is different.",
  ["schedules", "inputs"], "for every set of messages and every delivery order, duplication and interleaving of their parts",
  "The tests look at encoder and decoder separately and never at part order, duplication or several messages in flight.",
  [SUB, DEL, UDH, GSM, UT], [("encoder", "messaging/sms/submit.py:to_pdu"), ("decoder", "messaging/sms/deliver.py:_set_pdu"), ("concat header", "messaging/sms/udh.py")],
  [("network", "the bag of DELIVER PDUs in flight"), ("receiver", "the parts collected per sender, reference and count")])

p("C12", "Decoding is independent of history and malformed PDUs are refused",
  "Assigning a PDU to a message object that has already decoded others, successfully or not, reports exactly what a fresh object reports for that PDU, and decoding does not depend on other objects. "
  "A PDU with an odd number of digits is refused with ValueError in strict mode and decoded as if the last digit were missing otherwise; a SUBMIT-type PDU is refused with ValueError; a PDU containing characters that are not hexadecimal digits, or a DELIVER PDU that ends before its user data length, raises an exception rather than reporting a message.",
  ["histories", "inputs"], "for every sequence of assignments to one object, every truncation point and every corrupted digit",
  "Tests decode one PDU per object and only one odd-length PDU.",
  [DEL, UT], [("assignment", "messaging/sms/deliver.py:_set_pdu"), ("hex", "messaging/utils.py:to_array")],
  [("message object", "fields left by the previously decoded PDU")])

p("C13", "Septet packing and the digit and hex helpers are exact",
  "Packing n septets yields ceil(7n/8) octets after the length octet, holding the septets least significant bit first with zero padding, and with a 6-octet header the data starts at septet 7 after it and the length counts the header's septets; unpacking up to 140 octets yields all their septets in order. "
  "Swapping semi-octets is its own inverse, number decoding undoes the swapped 'F'-padded form, and hexadecimal encoding and decoding of octets are inverse.",
  ["inputs"], "for every septet sequence up to 160 and every octet sequence",
  "Only whole-message strings are tested; packing depends on the length modulo 8 and on every septet value.",
  [UT], [("pack", "messaging/utils.py:pack_8bits_to_7bits"), ("unpack", "messaging/utils.py:unpack_msg,unpack_msg2"), ("helpers", "messaging/utils.py:swap,swap_number,encode_str,encode_bytes,to_array")])

p("C14", "The preview iterator never loses, repeats or reorders items",
  "Under any interleaving of next, preview and reset, next returns the items of the underlying sequence in order, each exactly once, and preview returns the items following the last next or preview without affecting what next returns. "
  "Resetting makes preview restart right after the last item returned by next, and both raise StopIteration exactly at the end, after which previewed items are still delivered.",
  ["histories"], "for every underlying sequence and every sequence of next, preview and reset calls",
  "No test exercises the iterator directly; the decoders use a few fixed call patterns.",
  [IT], [("PreviewIterator", "messaging/mms/iterator.py:PreviewIterator")],
  [("position", "items consumed, items buffered, preview offset")])

p("C15", "WSP primitive encodings are standard and decode to what was encoded",
  "Each WSP primitive encoder (8-bit, variable-length, short, long and generic integers, short and quoted value lengths, text strings, tokens, extension media, version values, header fields) yields the octets of the WAP-230 encoding of its value, and the matching decoder reads that value back, consuming exactly those octets and leaving what follows untouched. "
  "An integer, length, token or text outside an encoding's range is refused with EncodeError (8-bit integers are taken modulo 256).",
  ["inputs"], "for every value of each type's range and whatever octets follow",
  "The tests check four encoders on a few values each.",
  [WSP], [("Encoder/Decoder", "messaging/mms/wsp_pdu.py:Encoder,Decoder")])

p("C16", "Content types with parameters survive encoding",
  "Encoding any media type (well-known or not) with any set of supported parameters yields a well-formed WAP-230 content type value whose length field covers exactly the media type and the parameters, and decoding it gives back the same media type and exactly the same parameters, leaving following octets untouched. "
  "Well-known types, parameters and header fields use the assigned numbers of WAP-230, of the encoding version asked for (1.1 to 1.4) where one can be asked for, and without parameters the short form is used; a parameter whose name or value its encoding cannot hold is refused.",
  ["inputs"], "for every well-known and textual media type and every combination of parameter names and values",
  "The tests encode two content types without parameters.",
  [WSP], [("content type", "messaging/mms/wsp_pdu.py:encode_content_type_value,decode_content_type_value"), ("parameters", "messaging/mms/wsp_pdu.py:encode_parameter,decode_parameter"), ("tables", "messaging/mms/wsp_pdu.py:well_known_content_types,get_well_known_parameters,get_header_field_names")])

p("C17", "MMS headers survive encoding, in the mandated order",
  "An encoded message starts with the message type, transaction id and version headers in that order, has the content type as its last header, carries every header that was set exactly once with the field number and value encoding of WAP-209, and decoding it gives back the same headers and values. "
  "A send request keeps its type exactly when it has a destination (To, Cc or Bcc) and becomes a retrieve confirmation otherwise, and headers given with the X-Mms- prefix replace the unprefixed ones.",
  ["inputs", "configurations"], "for every set of supported headers and application headers with any legal values",
  "The tests build one message with a fixed set of headers.",
  [MMS, WSP], [("headers", "messaging/mms/mms_pdu.py:encode_message_header,decode_message_header"), ("fields", "messaging/mms/mms_pdu.py:mms_field_names")])

p("C18", "MMS body parts survive encoding: order, types, headers and bytes",
  "The body of an encoded message announces and contains the presentation part followed by the image, audio and text of each page in order and then the separately added parts, each with exact header and data lengths, and decoding gives back the same parts with the same content types and parameters, headers and bytes. "
  "The message's list of data parts names the same parts (without the presentation part when there are no pages).",
  ["inputs", "configurations"], "for every arrangement of pages and parts, every content type, and every data content and size including lengths that need several octets",
  "One message with fixed files is encoded and decoded.",
  [MMS, MSG, WSP], [("body", "messaging/mms/mms_pdu.py:encode_message_body,decode_message_body"), ("parts", "messaging/mms/message.py:DataPart,MMSMessage.data_parts")])

p("C19", "Encoding an MMS message is repeatable and free of side effects",
  "Encoding a message, writing it to a file or asking for its presentation or data parts any number of times in any order gives the same result each time until the message is changed, and leaves its headers, pages and parts as they were. "
  "Writing to a file stores exactly the encoded bytes, replacing earlier content only if the message can be encoded, and loading from a file gives the same message as decoding those bytes.",
  ["histories"], "for every sequence of building, encoding, inspecting, saving and loading operations on a message",
  "Tests encode a message once and never look at the message afterwards.",
  [MMS, MSG], [("encode", "messaging/mms/mms_pdu.py:encode_message_header"), ("to_file/from_file", "messaging/mms/message.py:MMSMessage.to_file,from_file")],
  [("message", "headers, pages and parts before and after encoding")])

p("C20", "The presentation document describes exactly the pages",
  "The generated SMIL document is well-formed XML with one 'par' element per page, in order, carrying the page's duration and exactly its image, text and audio, each referring to its own part (its Content-Location, else its Content-ID, else the text itself) and, when a begin or end time was given, carrying the begin time and the end time limited to the page's duration (the page's duration when no end was given). "
  "A page without an item has no element for it; the regions items refer to exist and, with the default size, lie beside each other within the layout; texts are those XML can hold, read back as an XML reader reads attributes.",
  ["inputs", "configurations"], "for every sequence of pages with any subset of media, durations, times and texts",
  "Tests never read the document beyond one fixed message.",
  [MSG], [("smil", "messaging/mms/message.py:MMSMessage.smil")])

p("C21", "Pages and parts validate their input and keep their previous content",
  "Adding media or text with wrong types, a missing file or an end time before the begin time, or setting a non-positive or non-integer duration, raises TypeError, OSError or ValueError and leaves the page unchanged; a valid call replaces exactly that item and the number of parts is the number of items present. "
  "A part reports the bytes, length, content type and headers of whatever was last loaded or set into it.",
  ["histories", "inputs"], "for every sequence of calls on a page or part, valid and invalid",
  "Tests call the setters once each with valid values and a few invalid ones on fresh pages.",
  [MSG], [("page", "messaging/mms/message.py:MMSMessagePage"), ("part", "messaging/mms/message.py:DataPart")],
  [("page", "image, audio, text and duration"), ("part", "data, file and headers")])

p("C22", "WAP push notifications are recognised and unwrapped exactly",
  "A byte string is recognised as a WAP push exactly when its second octet is 0x06, and extracting a push yields the MMS message contained after its header, whatever the header's length and content; anything else is refused. "
  "A push counts as an MMS notification exactly when the message in it has both a sender and a content location.",
  ["inputs"], "for every push header length and every notification with any subset of headers",
  "Three captured notifications are tested.",
  [WAP, MMS], [("wap push", "messaging/sms/wap.py:is_a_wap_push_notification,extract_push_notification,is_mms_notification")])

p("C23", "MMS PDUs of other encoders are decoded by WAP-209",
  "Every MMS header of WAP-209 1.0 in any of its legal encodings (text with or without character set, short or quoted lengths, short or long integers, absolute or relative times, every assigned token) is decoded to the value it stands for, in any header order, and headers after it are unaffected. "
  "Values outside the assigned tokens are reported as the documented fallback, and body parts with any legal content type and header encoding are delivered with their exact bytes.",
  ["inputs"], "for every WAP-209 header, legal encoding, order and combination",
  "Half a dozen captured messages are tested, which use a few encodings of each header.",
  [MMS, WSP], [("header values", "messaging/mms/mms_pdu.py:MMSDecoder.decode_*"), ("body", "messaging/mms/mms_pdu.py:decode_message_body")])

p("C24", "A primitive decoder that refuses its input consumes nothing",
  "When a WSP or MMS primitive decoder documented to leave its input unmodified on failure raises DecodeError, the octet iterator still delivers exactly the octets it would have delivered before the call, and a following attempt with another decoder sees them all. "
  "Every decoder called on any finite octet sequence ends with a value or an exception.",
  ["inputs"], "for every decoder and every octet sequence",
  "No test makes a decoder fail and then looks at the iterator.",
  [WSP, MMS, IT], [("decoders", "messaging/mms/wsp_pdu.py:Decoder"), ("mms decoders", "messaging/mms/mms_pdu.py:MMSDecoder")])

p("C25", "A WAP push carried by several SMS comes out whole",
  "If a WAP push is cut into the user data of DELIVER PDUs with port and concatenation elements, and these arrive in any order and with duplicates among the parts of other messages, then decoding them and joining the texts of one sender, reference and count in sequence gives, exactly when all parts have arrived, the octets of the push. "
  "The joined data is recognised as a push, and the message extracted from it has exactly the headers and parts that were sent.",
  ["schedules", "inputs"], "for every set of pushes, every way of cutting them, every header element order and every delivery order, duplication and interleaving of their parts",
  "Three captured notifications of two parts each are tested, in order and alone.",
  [DEL, UDH, WAP, MMS, WSP], [("decoder", "messaging/sms/deliver.py:_set_pdu"), ("ports and concatenation", "messaging/sms/udh.py:UserDataHeader.from_bytes"), ("push", "messaging/sms/wap.py")],
  [("network", "the bag of DELIVER PDUs in flight"), ("receiver", "the texts collected per sender, reference and count")])

p("C26", "A multimedia message sent through an MMSC arrives as it was composed",
  "Clients compose, encode and submit messages; an MMSC confirms or refuses them, notifies the recipient by a WAP push, delivers, and reports; the recipient answers, retrieves, acknowledges and forwards. "
  "However these steps interleave and repeat, what the recipient decodes has exactly the parts (data, content type, headers), To, Cc, Subject and content type that the submitted message had when it was encoded, whatever is done to the composed message afterwards. "
  "Every PDU of the MMSC is decoded to the headers it carries; a Transaction-Id or Message-ID names the submission it answers, and the answers and acknowledgements a client encodes name the notification or retrieval they answer, with their status and nothing more. "
  "A retrieved message stays what it is while others are decoded or forwarded with its parts, and one encoder or decoder object may serve any number of messages.",
  ["schedules", "histories", "inputs"], "for every interleaving and repetition of submissions, confirmations, notifications, retrievals, answers, acknowledgements, reports, edits and forwards of any messages",
  "Single captured PDUs are decoded and two small messages encoded, each with fresh objects.",
  [MMS, MSG, WAP, WSP], [("encoder", "messaging/mms/mms_pdu.py:MMSEncoder"), ("decoder", "messaging/mms/mms_pdu.py:MMSDecoder"), ("push", "messaging/sms/wap.py:extract_push_notification"), ("message", "messaging/mms/message.py:MMSMessage")],
  [("sub", "submissions: the message when it was encoded"), ("note", "notifications by transaction and location"), ("ret", "messages the recipient has retrieved")])

p("C28", "Subscribers can answer, pass on and follow up short messages",
  "Subscribers submit short messages to a service centre that relays them in parts, sends parts again, discards them when their validity ends, and reports. "
  "However these steps interleave, and whether the subscribers' message objects are fresh or used before: a part is valid exactly until the end of the greatest representable period, or the absolute time, that its sender asked for; what arrives shows its sender, when it was submitted, the service centre and, once all its parts are there, its text; "
  "an answer to the number and through the service centre that a message showed reaches its sender, and a text passed on in the alphabet it came in arrives unchanged, any number of times; a report is asked for exactly when the sender did, names the reference and recipient by which the sender finds the submission it is about, and tells what became of it.",
  ["schedules", "histories", "inputs"], "for every interleaving of submissions, relays, arrivals, repetitions, expiries, reports, answers and forwards among any subscribers",
  "The tests encode single messages and decode single captured PDUs; no message is answered, passed on or reported.",
  [SUB, DEL, UDH, GSM, UT], [("encoder", "messaging/sms/submit.py:to_pdu"), ("decoder", "messaging/sms/deliver.py:_set_pdu"), ("reports", "messaging/sms/deliver.py:_decode_status_report_pdu"), ("validity", "messaging/utils.py")],
  [("st", "what became of each part"), ("clock", "the time of the service centre"), ("told", "outcomes the sender heard of")])

p("C27", "Calls that overlap or are dropped leave no trace in other calls",
  "Users of the library who work on objects of their own do not notice each other: when calls of one are interrupted at any point by calls of others (threads, signal handlers), each call still gives exactly what it would give alone. "
  "A call that is dropped at any point by an exception from outside (a timeout, an interrupt) leaves nothing behind that shows in later calls: encoding, decoding or asking again, with the same or other objects, gives what it would have given.",
  ["schedules", "crash points", "inputs"], "for every interleaving of the statements of calls on different objects, and every point at which a call can be dropped",
  "The tests make one call at a time and let it finish.",
  [SUB, DEL, UDH, GSM, UT, MMS, MSG, WSP, IT, WAP], [("module level state", "messaging/**: module and class attributes"), ("encoder state", "messaging/mms/mms_pdu.py:MMSEncoder.encode"), ("assignment", "messaging/sms/deliver.py:SmsDeliver._set_pdu")],
  [("at", "how far each user's call is"), ("work", "the place where a call builds its result"), ("done", "the results")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
