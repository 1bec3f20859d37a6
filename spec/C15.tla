-------------------------------- MODULE C15 --------------------------------
(* WSP primitives: the octets of every value, and back.                    *)
EXTENDS Decoders
VARIABLE l

Refuse == [st |-> "no"]
Yields(o) == [st |-> "ok", o |-> o]
IsNum(v) == v.k = "n"
IsStr(v) == v.k = "s"
Octets_(c) == \A j \in 1..Len(c) : c[j] \in 1..255
MediaOf(c) == LET k == MediaNumber(c) IN IF k >= 0 THEN ShortOf(k) ELSE c \o <<0>>
GoodMedia(c) == c # <<>> /\ c[1] >= 32 /\ c[1] # 127
(* what encoder f makes of v *)
Encoding(f, v) ==
    CASE f = "uint_8" ->
           (IF IsNum(v) THEN Yields(<<IF v.n = <<>> THEN 0 ELSE v.n[Len(v.n)]>>) ELSE Undef)
      [] f = "uint_var" -> (IF IsNum(v) THEN Yields(UintvarOf(v.n)) ELSE Refuse)
      [] f = "short_integer" ->
           (IF IsNum(v) THEN (IF IsShort(v.n) THEN Yields(ShortOf(Small(v.n))) ELSE Refuse) ELSE Refuse)
      [] f = "long_integer" ->
           (IF IsNum(v) THEN (IF Len(v.n) <= 30 THEN Yields(LongOf(v.n)) ELSE Refuse) ELSE Refuse)
      [] f = "integer_value" ->
           (IF IsNum(v) THEN (IF Len(v.n) <= 30 THEN Yields(IntegerOf(v.n)) ELSE Refuse) ELSE Refuse)
      [] f = "short_length" ->
           (IF IsNum(v) THEN (IF Len(v.n) <= 1 /\ Small(v.n) <= 30 THEN Yields(<<Small(v.n)>>) ELSE Refuse)
            ELSE Refuse)
      [] f = "value_length" ->
           (IF IsNum(v) THEN Yields(IF Len(v.n) <= 1 /\ Small(v.n) <= 30 THEN <<Small(v.n)>>
                                    ELSE <<31>> \o UintvarOf(v.n)) ELSE Refuse)
      [] f = "text_string" ->
           (IF ~Octets_(v.c) THEN Refuse ELSE IF IsText(v.c) THEN Yields(TextOf(v.c)) ELSE Undef)
      [] f = "token_text" -> (IF IsToken(v.c) THEN Yields(v.c \o <<0>>) ELSE Refuse)
      [] f = "extension_media" ->
           (IF ~Octets_(v.c) \/ ~GoodMedia(v.c) THEN Refuse
            ELSE IF IsText(v.c) THEN Yields(v.c \o <<0>>) ELSE Undef)
      [] f = "constrained_encoding" ->
           (IF v.k = "neg" THEN Refuse
            ELSE IF IsNum(v) THEN (IF IsShort(v.n) THEN Yields(ShortOf(Small(v.n))) ELSE Refuse)
            ELSE IF GoodMedia(v.c) /\ Octets_(v.c) THEN Yields(v.c \o <<0>>) ELSE Refuse)
      [] f = "version_value" -> Yields(VersionOf(v.c))
      [] f = "no_value" -> Yields(<<0>>)
      [] f \in {"media_type", "constrained_media", "accept_value"} -> Yields(MediaOf(v.c))
      [] OTHER -> Undef
HeaderEncoding(name, v) ==
    LET k == FieldNumber(name)
        n == IF k >= 0 THEN ShortOf(k) ELSE name \o <<0>>
    IN IF ~IsToken(name) \/ ~Octets_(v.c) THEN Refuse
       ELSE IF ~IsText(v.c) THEN Undef
       ELSE Yields(n \o (IF name = Codes("Accept") THEN MediaOf(v.c) ELSE TextOf(v.c)))

JudgeEnc(e, x) ==
    IF Is(x, "any") THEN {}
    ELSE IF Is(x, "no") THEN Chk("out-of-range-not-refused", FailsWith(e.r, "EncodeError"))
    ELSE Chk("octets", Gives(e.r, Arr(x.o)))
(* what an encoder produced: it must be understood *)
JudgeDec(e) ==
    LET p == ByName(e.f, e.s, 1)
    IN IF ~Is(p, "ok") THEN {}
       ELSE Chk("value-read-back", Meets(e.f, e.r, p))
            \cup Chk("following-octets", e.r.ok => e.rest = Sub(e.s, p.n, Len(e.s)))
Judge(e) ==
    CASE e.op = "enc"    -> JudgeEnc(e, Encoding(e.f, e.v))
      [] e.op = "enchdr" -> JudgeEnc(e, HeaderEncoding(e.name, e.v))
      [] e.op = "dec"    -> JudgeDec(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
