-------------------------------- MODULE Wsp --------------------------------
(***************************************************************************)
(* The encodings of WAP-230-WSP, sections 8.1.2 and 8.4.2, and of the MMS   *)
(* headers of WAP-209, as parsers over octet sequences.                    *)
(*                                                                         *)
(* A parser is applied to the octets s from position i on and gives        *)
(*   [st |-> "ok", v |-> value, n |-> position after the encoding],        *)
(*   [st |-> "no"]   these octets do not start such an encoding,           *)
(*   [st |-> "end"]  the octets end before the encoding does,              *)
(*   [st |-> "any"]  the standard does not define what they mean.          *)
(* Values are projected like observations (module Obs), except that whole  *)
(* numbers are [k |-> "n", n |-> their octets, most significant first,     *)
(* without leading zeros]: they may have 30 octets.                        *)
(***************************************************************************)
EXTENDS Obs, WspTables, Periods

Num(o)   == [k |-> "n", n |-> o]
Ok(v, n) == [st |-> "ok", v |-> v, n |-> n]
No  == [st |-> "no"]
End == [st |-> "end"]
Undef == [st |-> "any"]
Is(p, st) == p.st = st

(* ---- numbers -------------------------------------------------------------- *)
RECURSIVE Strip(_)
Strip(o) == IF o = <<>> THEN o ELSE IF o[1] = 0 THEN Strip(Tail(o)) ELSE o
RECURSIVE OctetsOf(_)
OctetsOf(k) == IF k = 0 THEN <<>> ELSE Append(OctetsOf(k \div 256), k % 256)
(* of a number below 2^24 *)
Small(o) == (IF Len(o) >= 3 THEN o[Len(o) - 2] * 65536 ELSE 0)
            + (IF Len(o) >= 2 THEN o[Len(o) - 1] * 256 ELSE 0)
            + (IF Len(o) >= 1 THEN o[Len(o)] ELSE 0)
(* seven bit digits, most significant first, to octets *)
OfDigits(d) ==
    LET m == Len(d)
        B(p) == IF p >= 7 * m THEN 0 ELSE Bit(d[m - (p \div 7)], p % 7)
        k == CeilDiv(7 * m, 8)
        O(j) == LET q == 8 * j
                IN B(q) + 2 * B(q + 1) + 4 * B(q + 2) + 8 * B(q + 3) + 16 * B(q + 4)
                   + 32 * B(q + 5) + 64 * B(q + 6) + 128 * B(q + 7)
    IN Strip([j \in 1..k |-> O(k - j)])
(* and back *)
Digits(o) ==
    LET m == Len(o)
        B(p) == IF p >= 8 * m THEN 0 ELSE Bit(o[m - (p \div 8)], p % 8)
        k == Max2(1, CeilDiv(8 * m, 7))
        D(j) == LET q == 7 * j
                IN B(q) + 2 * B(q + 1) + 4 * B(q + 2) + 8 * B(q + 3) + 16 * B(q + 4)
                   + 32 * B(q + 5) + 64 * B(q + 6)
        d == [j \in 1..k |-> D(k - j)]
    IN IF k > 1 /\ d[1] = 0 THEN Tail(d) ELSE d

UintvarOf(o) == LET d == Digits(o)
                IN [j \in 1..Len(d) |-> IF j < Len(d) THEN 128 + d[j] ELSE d[j]]
ShortOf(k) == <<128 + k>>
LongOf(o) == LET m == IF o = <<>> THEN <<0>> ELSE o IN <<Len(m)>> \o m
IsShort(o) == o = <<>> \/ (Len(o) = 1 /\ o[1] < 128)
IntegerOf(o) == IF IsShort(o) THEN ShortOf(Small(o)) ELSE LongOf(o)
ValueLengthOf(k) == IF k <= 30 THEN <<k>> ELSE <<31>> \o UintvarOf(OctetsOf(k))

Uint8(s, i) == IF i > Len(s) THEN End ELSE Ok(Num(Strip(<<s[i]>>)), i + 1)
RECURSIVE LastDigit(_, _)
LastDigit(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] < 128 THEN i ELSE LastDigit(s, i + 1)
Uintvar(s, i) ==
    LET j == LastDigit(s, i)
    IN IF j = 0 THEN End
       ELSE Ok(Num(OfDigits([k \in 1..(j - i + 1) |-> s[i + k - 1] % 128])), j + 1)
Short(s, i) == IF i > Len(s) THEN End
               ELSE IF s[i] < 128 THEN No
               ELSE Ok(Num(Strip(<<s[i] - 128>>)), i + 1)
ShortLength(s, i) == IF i > Len(s) THEN End
                     ELSE IF s[i] > 30 THEN No ELSE Ok(Num(Strip(<<s[i]>>)), i + 1)
Long(s, i) ==
    LET p == ShortLength(s, i)
    IN IF ~Is(p, "ok") THEN p
       ELSE IF s[i] = 0 THEN Undef
       ELSE IF i + s[i] > Len(s) THEN End
       ELSE Ok(Num(Strip(Sub(s, i + 1, i + s[i]))), i + s[i] + 1)
Integer(s, i) == LET p == Short(s, i) IN IF Is(p, "no") THEN Long(s, i) ELSE p
ValueLength(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] <= 30 THEN ShortLength(s, i)
    ELSE IF s[i] = 31 THEN Uintvar(s, i + 1)
    ELSE No
(* as a count, for lengths that can be meant *)
Count(p) == IF Len(p.v.n) > 3 THEN 16777216 ELSE Small(p.v.n)

(* ---- text -------------------------------------------------------------------- *)
RECURSIVE Nul(_, _)
Nul(s, i) ==     \* by blocks: the texts may be long
    IF i > Len(s) THEN 0
    ELSE LET e == Min2(Len(s), i + 63)
         IN IF \E j \in i..e : s[j] = 0
            THEN CHOOSE j \in i..e : s[j] = 0 /\ \A k \in i..(j - 1) : s[k] # 0
            ELSE Nul(s, e + 1)
TextChar(c) == (c >= 32 /\ c <= 255 /\ c # 127) \/ c \in {9, 10, 13}
IsText(c) == \A j \in 1..Len(c) : TextChar(c[j])
Separators == {Codes("(")[1], Codes(")")[1], Codes("<")[1], Codes(">")[1], Codes("@")[1],
               Codes(",")[1], Codes(";")[1], Codes(":")[1], 92, 34, Codes("/")[1],
               Codes("[")[1], Codes("]")[1], Codes("?")[1], Codes("=")[1], Codes("{")[1],
               Codes("}")[1], 32, 9}
TokenChar(c) == c > 32 /\ c < 127 /\ c \notin Separators
IsToken(c) == c # <<>> /\ \A j \in 1..Len(c) : TokenChar(c[j])

TextOf(c) == (IF c # <<>> /\ c[1] >= 128 THEN <<127>> ELSE <<>>) \o c \o <<0>>
TextString(s, i) ==
    IF i > Len(s) THEN End
    ELSE LET q == s[i] = 127
             j == Nul(s, i)
             c == Sub(s, IF q THEN i + 1 ELSE i, j - 1)
         IN IF j = 0 THEN End
            ELSE IF ~IsText(c) THEN Undef
            ELSE IF q THEN (IF c # <<>> /\ c[1] >= 128 THEN Ok(Str(c), j + 1) ELSE Undef)
            ELSE IF c # <<>> /\ c[1] >= 128 THEN Undef
            ELSE Ok(Str(c), j + 1)
QuotedString(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] # 34 THEN No
    ELSE LET j == Nul(s, i)
             c == Sub(s, i + 1, j - 1)
         IN IF j = 0 THEN End ELSE IF IsText(c) THEN Ok(Str(c), j + 1) ELSE Undef
(* the first character decides whether this is a token at all *)
NoToken(c) == c <= 32 \/ (c \in Separators /\ c # 34)
TokenText(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF NoToken(s[i]) THEN No
    ELSE LET j == Nul(s, i)
             c == Sub(s, i, IF j = 0 THEN Len(s) ELSE j - 1)
         IN IF ~IsToken(c) THEN Undef ELSE IF j = 0 THEN End ELSE Ok(Str(c), j + 1)
ExtensionMedia(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] < 32 \/ s[i] = 127 THEN No
    ELSE LET j == Nul(s, i)
             c == Sub(s, i, j - 1)
         IN IF j = 0 THEN End ELSE IF IsText(c) THEN Ok(Str(c), j + 1) ELSE Undef
NoValue(s, i) == IF i > Len(s) THEN End ELSE IF s[i] # 0 THEN No ELSE Ok(Str(<<>>), i + 1)
TextValue(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] = 0 THEN NoValue(s, i)
    ELSE IF s[i] = 34 THEN QuotedString(s, i)
    ELSE TokenText(s, i)

(* ---- composed values ------------------------------------------------------------ *)
Constrained(s, i) == LET p == Short(s, i) IN IF Is(p, "no") THEN ExtensionMedia(s, i) ELSE p
DecimalOf(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + k \div 10, 48 + (k % 10)>>
Version(s, i) ==
    LET p == Short(s, i)
        b == s[i] - 128
    IN IF Is(p, "no") THEN TextString(s, i)
       ELSE IF ~Is(p, "ok") THEN p
       ELSE Ok(Str(DecimalOf(b \div 16)
                   \o (IF b % 16 = 15 THEN <<>> ELSE <<46>> \o DecimalOf(b % 16))), i + 1)
IsDigit(c) == c \in 48..57
(* major.minor or major that fits in an octet, written without extra zeros *)
VersionOf(c) ==
    LET dot == IndexOf(c, 46)
        maj == Sub(c, 1, IF dot = 0 THEN Len(c) ELSE dot - 1)
        min == IF dot = 0 THEN <<>> ELSE Sub(c, dot + 1, Len(c))
        short == /\ Len(maj) = 1 /\ maj[1] \in 49..55
                 /\ \/ dot = 0
                    \/ Len(min) = 1 /\ IsDigit(min[1])
                    \/ Len(min) = 2 /\ min[1] = 49 /\ min[2] \in 48..52
    IN IF short THEN ShortOf(16 * (maj[1] - 48)
                             + (IF dot = 0 THEN 15
                                ELSE IF Len(min) = 1 THEN min[1] - 48 ELSE 10 + min[2] - 48))
       ELSE TextOf(c)
(* a date in seconds from 1970: at most five octets *)
RECURSIVE DivMod(_, _, _, _)
DivMod(o, i, q, r) == IF i > Len(o) THEN <<q, r>>
    ELSE LET x == 256 * r + o[i]
         IN DivMod(o, i + 1, 256 * q + (x \div 86400), x % 86400)
DateOf(o) == LET d == DivMod(o, 1, 0, 0)
                 c == Civil(d[1])
             IN <<c[1], c[2], c[3], d[2] \div 3600, (d[2] \div 60) % 60, d[2] % 60, 0>>
DateValue(s, i) ==
    LET p == Long(s, i)
    IN IF ~Is(p, "ok") THEN p
       ELSE IF Len(p.v.n) > 5 THEN Undef
       ELSE IF Len(p.v.n) = 5 /\ p.v.n[1] > 50 THEN Undef
       ELSE Ok(Date(DateOf(p.v.n)), p.n)
Q(s, i) ==
    LET p == Uintvar(s, i)
        k == Small(p.v.n)
    IN IF ~Is(p, "ok") THEN p
       ELSE IF Len(p.v.n) > 2 THEN Undef
       ELSE IF k = 0 \/ k > 1099 THEN Undef
       ELSE Ok([k |-> "f", f |-> IF k <= 100 THEN (k - 1) * 10000 ELSE (k - 100) * 1000], p.n)
RECURSIVE Decimal(_)
Decimal(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Decimal(k \div 10), 48 + (k % 10))
CharsetName(o) ==
    IF \E r \in 1..Len(Charsets) : Charsets[r][1] = o
    THEN Charsets[CHOOSE r \in 1..Len(Charsets) : Charsets[r][1] = o][2]
    ELSE Decimal(Small(o))
Charset(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] = 128 THEN Ok(Str(<<42>>), i + 1)
    ELSE LET p == Integer(s, i)
         IN IF ~Is(p, "ok") THEN p
            ELSE IF Len(p.v.n) > 3 THEN Undef ELSE Ok(Str(CharsetName(p.v.n)), p.n)
Field(s, i) ==
    LET p == Short(s, i)
    IN IF Is(p, "no") THEN TokenText(s, i)
       ELSE IF ~Is(p, "ok") THEN p
       ELSE IF s[i] - 128 >= Len(FieldNames) THEN Undef
       ELSE Ok(Str(FieldNames[s[i] - 127]), i + 1)

(* ---- content types ---------------------------------------------------------------- *)
Named(p) ==     \* a number replaced by the media type
    IF ~Is(p, "ok") THEN p
    ELSE IF p.v.k = "s" THEN p
    ELSE IF Len(p.v.n) > 1 THEN No
    ELSE IF Small(p.v.n) >= Len(MediaTypes) THEN No
    ELSE Ok(Str(MediaTypes[Small(p.v.n) + 1]), p.n)
WellKnownMedia(s, i) == Named(Integer(s, i))
ConstrainedMedia(s, i) == Named(Constrained(s, i))
MediaType(s, i) == LET p == WellKnownMedia(s, i)
                   IN IF Is(p, "no") THEN ExtensionMedia(s, i) ELSE p
ByKind(kind, s, i) ==
    CASE kind = "q"           -> Q(s, i)
      [] kind = "charset"     -> Charset(s, i)
      [] kind = "version"     -> Version(s, i)
      [] kind = "integer"     -> Integer(s, i)
      [] kind = "text"        -> TextString(s, i)
      [] kind = "short"       -> Short(s, i)
      [] kind = "constrained" -> Constrained(s, i)
      [] kind = "field"       -> Field(s, i)
WellKnownParam(s, i) ==
    LET p == Integer(s, i)
    IN IF ~Is(p, "ok") THEN p
       ELSE IF Len(p.v.n) > 1 THEN No
       ELSE IF ParamRows(Small(p.v.n)) = {} THEN No
       ELSE Ok(CHOOSE r \in ParamRows(Small(p.v.n)) : TRUE, p.n)
Pair(a, b) == <<Str(a), b>>
TypedParam(s, i) ==
    LET w == WellKnownParam(s, i)
        row == ParamTable[w.v]
        p == ByKind(row[3], s, w.n)
        t == TextValue(s, w.n)
    IN IF ~Is(w, "ok") THEN w
       ELSE IF Is(p, "ok") THEN Ok(Pair(row[2], p.v), p.n)
       ELSE IF Is(p, "no") THEN (IF Is(t, "ok") THEN Ok(Pair(row[2], t.v), t.n)
                                 ELSE IF Is(t, "no") THEN Undef ELSE t)
       ELSE p
UntypedValue(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] = 0 THEN NoValue(s, i)
    ELSE LET p == Integer(s, i) IN IF Is(p, "no") THEN TextValue(s, i) ELSE p
UntypedParam(s, i) ==
    LET t == TokenText(s, i)
        p == UntypedValue(s, t.n)
    IN IF ~Is(t, "ok") THEN t
       ELSE IF Is(p, "ok") THEN Ok(Pair(t.v.c, p.v), p.n)
       ELSE IF Is(p, "no") THEN Undef ELSE p
Param(s, i) == LET p == TypedParam(s, i) IN IF Is(p, "no") THEN UntypedParam(s, i) ELSE p
(* all parameters up to the end of s *)
RECURSIVE Params(_, _, _)
Params(s, i, acc) ==
    IF i > Len(s) THEN Ok(acc, i)
    ELSE LET p == Param(s, i) IN IF Is(p, "ok") THEN Params(s, p.n, Append(acc, p.v)) ELSE Undef
Distinct(ps) == \A a \in 1..Len(ps) : \A b \in 1..Len(ps) : ps[a][1] = ps[b][1] => a = b
(* values are [media |-> codes, params |-> sequence of <<name, value>>] *)
GeneralForm(s, i) ==
    LET l == ValueLength(s, i)
        k == Count(l)
        c == Sub(s, l.n, l.n + k - 1)
        m == MediaType(c, 1)
        ps == Params(c, m.n, <<>>)
    IN IF ~Is(l, "ok") THEN l
       ELSE IF l.n + k - 1 > Len(s) THEN End
       ELSE IF ~Is(m, "ok") THEN Undef
       ELSE IF ~Is(ps, "ok") THEN Undef
       ELSE IF ~Distinct(ps.v) THEN Undef
       ELSE Ok([media |-> m.v.c, params |-> ps.v], l.n + k)
ContentType(s, i) ==
    LET p == ConstrainedMedia(s, i)
    IN IF Is(p, "ok") THEN Ok([media |-> p.v.c, params |-> <<>>], p.n)
       ELSE IF Is(p, "no") THEN GeneralForm(s, i) ELSE p
Elems(q) == {q[j] : j \in 1..Len(q)}
(* an observed (media type, dictionary) pair is this content type *)
IsContentType(v, ct) ==
    IF v.k # "t" THEN FALSE
    ELSE IF Len(v.t) # 2 THEN FALSE
    ELSE IF v.t[1] # Str(ct.media) \/ v.t[2].k # "m" THEN FALSE
    ELSE Elems(v.t[2].m) = Elems(ct.params) /\ Len(v.t[2].m) = Len(ct.params)
Accept(s, i) ==
    LET p == ContentType(s, i) IN IF Is(p, "ok") THEN Ok(Str(p.v.media), p.n) ELSE p
NoCache == Tup(<<Str(Codes("Cache-control")), Str(Codes("No-cache"))>>)
Pragma(s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] = 128 THEN Ok(NoCache, i + 1)
    ELSE LET l == ValueLength(s, i)
             p == Param(s, l.n)
         IN IF ~Is(l, "ok") THEN l
            ELSE IF Is(p, "ok") THEN (IF p.n = l.n + Count(l) THEN Ok(Tup(p.v), p.n) ELSE Undef)
            ELSE IF Is(p, "no") THEN Undef ELSE p

(* ---- WSP headers -------------------------------------------------------------------- *)
ApplicationHeader(s, i) ==
    LET t == TokenText(s, i)
        p == TextString(s, t.n)
    IN IF Is(t, "no") THEN Undef
       ELSE IF ~Is(t, "ok") THEN t
       ELSE IF Is(p, "ok") THEN Ok(Pair(t.v.c, p.v), p.n) ELSE p
(* the headers whose values are understood as what they are; the values of *)
(* the others are text, and other encodings of them are left open          *)
WellKnownHeader(s, i) ==
    LET f == Short(s, i)
        k == s[i] - 128
        name == FieldNames[k + 1]
        p == IF name = Codes("Accept") THEN Accept(s, i + 1)
             ELSE IF name = Codes("Pragma") THEN Pragma(s, i + 1)
             ELSE TextString(s, i + 1)
    IN IF ~Is(f, "ok") THEN f
       ELSE IF k >= Len(FieldNames) THEN Undef
       ELSE IF Is(p, "ok") THEN Ok(Pair(name, p.v), p.n)
       ELSE IF Is(p, "no") THEN Undef ELSE p
Header(s, i) == LET p == WellKnownHeader(s, i)
                IN IF Is(p, "no") THEN ApplicationHeader(s, i) ELSE p
=============================================================================
