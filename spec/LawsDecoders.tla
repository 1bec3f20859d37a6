----------------------------- MODULE LawsDecoders -----------------------------
(***************************************************************************)
(* The decoders of the specification, on every short sequence over octets   *)
(* at the edges of their grammars.  Each of them always says what a         *)
(* sequence is: a value that takes some of the octets, a sequence that ends *)
(* too early, one it does not know, or one nothing is promised about.  A    *)
(* value that was found stays the same whatever follows and wherever the    *)
(* sequence lies; a value takes octets; and what is cut off before its end  *)
(* is not another value of the same decoder that ends later.               *)
(***************************************************************************)
EXTENDS Decoders
CONSTANTS OCTETS, LENGTH
VARIABLES f, x
Names_ == {"uint_8", "uint_var", "short_integer", "long_integer", "integer_value", "delta_seconds_value",
           "short_length", "value_length", "text_string", "uri_value", "quoted_string", "token_text",
           "extension_media", "constrained_encoding", "version_value", "date_value", "q_value",
           "well_known_charset", "no_value", "text_value", "untyped_value", "well_known_media",
           "constrained_media", "media_type", "accept_value", "pragma_value", "encoded_string_value",
           "boolean_value", "delivery_time_value", "from_value", "message_class_value", "message_type_value",
           "priority_value", "sender_visibility_value", "response_status_value", "status_value", "expiry_value",
           "parameter", "typed_parameter", "untyped_parameter", "well_known_header", "application_header",
           "header", "field_name", "mms_header", "compact_value", "typed_value", "content_type_value", "content_general_form"}
Init == f \in Names_ /\ x \in UNION { [1..k -> OCTETS] : k \in 0..LENGTH }
Spec == Init /\ [][FALSE]_<<f, x>>

P == ByName(f, x, 1)
Kinds == {"ok", "end", "no", "any"}
Total == \E k \in Kinds : Is(P, k)
TakesOctets == Is(P, "ok") => P.n > 1 /\ P.n <= Len(x) + 1
(* what follows does not matter *)
Prefix == Is(P, "ok") => \A t \in {<<0>>, <<65>>, <<128, 255>>} :
                            LET q == ByName(f, x \o t, 1) IN Is(q, "ok") /\ q.v = P.v /\ q.n = P.n
(* nor what comes before *)
Anywhere == LET q == ByName(f, <<31, 0>> \o x, 3)
            IN IF Is(P, "ok") THEN Is(q, "ok") /\ q.v = P.v /\ q.n = P.n + 2 ELSE q.st = P.st
(* a value without its last octet is not a value that takes all of it *)
Whole == Is(P, "ok") => LET q == ByName(f, Sub(x, 1, P.n - 2), 1)
                        IN ~Is(q, "ok")
=============================================================================
