------------------------------ MODULE Decoders ------------------------------
(* The decoders of the implementation by name, and which of them are        *)
(* documented to leave their input alone when they refuse it.              *)
EXTENDS Mms
ByName(f, s, i) ==
    CASE f = "uint_8" -> Uint8(s, i)
      [] f = "uint_var" -> Uintvar(s, i)
      [] f = "short_integer" -> Short(s, i)
      [] f = "long_integer" -> Long(s, i)
      [] f = "integer_value" -> Integer(s, i)
      [] f = "delta_seconds_value" -> Integer(s, i)
      [] f = "short_length" -> ShortLength(s, i)
      [] f = "value_length" -> ValueLength(s, i)
      [] f = "text_string" -> TextString(s, i)
      [] f = "uri_value" -> TextString(s, i)
      [] f = "quoted_string" -> QuotedString(s, i)
      [] f = "token_text" -> TokenText(s, i)
      [] f = "extension_media" -> ExtensionMedia(s, i)
      [] f = "constrained_encoding" -> Constrained(s, i)
      [] f = "version_value" -> Version(s, i)
      [] f = "date_value" -> DateValue(s, i)
      [] f = "q_value" -> Q(s, i)
      [] f = "well_known_charset" -> Charset(s, i)
      [] f = "no_value" -> (LET p == NoValue(s, i) IN IF Is(p, "ok") THEN Ok(Num(<<>>), p.n) ELSE p)
      [] f = "text_value" -> TextValue(s, i)
      [] f = "untyped_value" -> UntypedValue(s, i)
      [] f = "well_known_media" -> WellKnownMedia(s, i)
      [] f = "constrained_media" -> ConstrainedMedia(s, i)
      [] f = "media_type" -> MediaType(s, i)
      [] f = "accept_value" -> Accept(s, i)
      [] f = "pragma_value" -> Pragma(s, i)
      [] f = "encoded_string_value" -> EString(s, i)
      [] f = "boolean_value" -> Boolean(s, i)
      [] f = "delivery_time_value" -> DeliveryTime(s, i)
      [] f = "from_value" -> From(s, i)
      [] f = "message_class_value" -> MessageClass(s, i)
      [] f = "message_type_value" -> Token("mtype", s, i)
      [] f = "priority_value" -> Token("priority", s, i)
      [] f = "sender_visibility_value" -> Token("visibility", s, i)
      [] f = "response_status_value" -> Token("response", s, i)
      [] f = "status_value" -> Token("status", s, i)
      [] f = "expiry_value" -> Expiry(s, i)
      [] f = "parameter" -> (LET p == Param(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "typed_parameter" ->
           (LET p == TypedParam(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "untyped_parameter" ->
           (LET p == UntypedParam(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "well_known_header" ->
           (LET p == WellKnownHeader(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "application_header" ->
           (LET p == ApplicationHeader(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "header" ->
           (LET p == Header(s, i) IN IF Is(p, "ok") THEN Ok(Tup(p.v), p.n) ELSE p)
      [] f = "field_name" -> Field(s, i)
      [] f = "mms_header" ->
           (LET p == MmsHeader(s, i)
            IN IF i <= Len(s) /\ s[i] < 128 THEN No
               ELSE IF ~Is(p, "ok") THEN p
               ELSE IF p.v.name = CTName THEN Undef
               ELSE Ok(Tup(<<Str(p.v.name), p.v.v>>), p.n))
      (* a text that could be a URI or a quoted string is left open *)
      [] f \in {"compact_value", "typed_value"} ->
           (LET p == Integer(s, i)
            IN IF ~Is(p, "no") THEN p
               ELSE IF i <= Len(s) /\ s[i] = 34 THEN Undef
               ELSE TextString(s, i))
      [] f \in {"content_type_value", "content_general_form"} ->
           (IF f = "content_type_value" THEN ContentType(s, i) ELSE GeneralForm(s, i))
      [] OTHER -> Undef
IsCT(f) == f \in {"content_type_value", "content_general_form"}
(* "is not modified" in their documentation *)
Careful == {"short_integer", "long_integer", "integer_value", "delta_seconds_value", "date_value",
            "token_text", "extension_media", "short_length", "value_length", "well_known_media",
            "well_known_parameter", "no_value", "accept_value", "pragma_value", "boolean_value",
            "priority_value", "sender_visibility_value", "compact_value", "constrained_encoding",
            "constrained_media", "quoted_string"}
Meets(f, r, p) ==       \* the result of a decoder on an encoding it understands
    IF ~r.ok THEN FALSE
    ELSE IF IsCT(f) THEN IsContentType(r.v, p.v) ELSE r.v = p.v
=============================================================================
