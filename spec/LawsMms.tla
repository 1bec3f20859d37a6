------------------------------- MODULE LawsMms -------------------------------
(***************************************************************************)
(* The clauses that judge encoded messages and content types determine     *)
(* them: from a message as its composer means it are made its octets, by   *)
(* an encoder written from WAP-209 and WAP-230, and what a reader shows     *)
(* (Shown).  They satisfy every clause, and no octet can be changed,        *)
(* dropped or doubled, and nothing that is shown be changed, without        *)
(* breaking one.                                                           *)
(***************************************************************************)
EXTENDS MmsMessage, ContentTypes
CONSTANTS KINDS,      \* "message", "type", "parameter"
          HEADERS, TYPES, BODIES, DELTAS, VERSIONS
VARIABLES m, what
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)

(* ---- messages --------------------------------------------------------------- *)
H(name, v) == <<Codes(name), v>>
S(text) == Str(Codes(text))
HeadersNamed(n) ==
    CASE n = "least"   -> <<H("Transaction-Id", S("7"))>>
      [] n = "drawn"   -> <<H("Message-Type", S("m-send-req")), H("To", S("a"))>>
      [] n = "usual"   -> <<H("Message-Type", S("m-send-req")), H("Transaction-Id", S("1234")), H("MMS-Version", S("1.0")),
                            H("From", S("<not inserted>")), H("To", S("+34600123456/TYPE=PLMN")), H("Subject", S("test")),
                            H("Message-Class", S("Personal")), H("Delivery-Report", Bool(TRUE)), H("Read-Reply", Bool(FALSE))>>
      [] n = "old"     -> <<H("X-Mms-Message-Type", S("m-notification-ind")), H("X-Mms-Transaction-Id", S("")),
                            H("X-Mms-Version", S("1.2")), H("From", S("x@y")), H("Message-Size", Num(<<3, 200>>)),
                            H("Content-Location", S("http://a/b")), H("Message-Class", S("own"))>>
      [] n = "answer"  -> <<H("Message-Type", S("m-send-conf")), H("Transaction-Id", Str(<<233, 65>>)), H("MMS-Version", S("7")),
                            H("Response-Status", S("Error-network-problem")), H("Response-Text", S("no")),
                            H("Message-ID", S("1@2")), H("From", S(""))>>
      [] n = "report"  -> <<H("Message-Type", S("m-delivery-ind")), H("Transaction-Id", S("x")), H("Status", S("Retrieved")),
                            H("Bcc", S("b")), H("Cc", Str(<<255>>)), H("Report-Allowed", Bool(FALSE)),
                            H("Message-Size", Num(<<>>)), H("Application-Header", S("of mine"))>>
P(name, v) == <<Codes(name), v>>
TypeNamed(n) ==
    CASE n = "mixed"   -> CT(Codes("application/vnd.wap.multipart.mixed"), <<>>)
      [] n = "related" -> CT(Codes("application/vnd.wap.multipart.related"),
                             <<P("Type", S("application/smil")), P("Start", S("<0000>"))>>)
      [] n = "text"    -> CT(TextPlain, <<>>)
      [] n = "any"     -> CT(Codes("*/*"), <<P("Name", Str(<<200, 32, 233>>)), P("Filename", S(""))>>)
      [] n = "named"   -> CT(Codes("image/gif"), <<P("Name", S("a")), P("Padding", Num(<<5>>)), P("Type", Num(<<>>)), P("level", Num(<<1>>))>>)
      [] n = "other"   -> CT(Codes("x-foo/x-bar"), <<>>)
      [] n = "others"  -> CT(Codes("x-foo/x-bar"), <<P("x", Num(<<1, 0>>)), P("y", S("a b")), P("z", S("token")), P("w", S(""))>>)
      [] n = "long"    -> CT(Codes("text/html"), <<P("Name", Str([i \in 1..140 |-> 65 + (i % 26)]))>>)
      [] n = "short30" -> CT(Codes("text/html"), <<P("Name", Str([i \in 1..27 |-> 65 + (i % 26)]))>>)
      [] n = "short31" -> CT(Codes("text/html"), <<P("Name", Str([i \in 1..28 |-> 65 + (i % 26)]))>>)
Part_(ct, hdrs, data) == [ct |-> ct, hdrs |-> hdrs, data |-> data]
PartsNamed(n) ==
    CASE n = "none" -> <<>>
      [] n = "one"  -> <<Part_(TypeNamed("text"), <<>>, <<104, 105>>)>>
      [] n = "two"  -> <<Part_(TypeNamed("other"), <<H("Content-Location", S("a.b"))>>, <<>>),
                         Part_(TypeNamed("named"), <<H("Content-ID", S("<1>")), H("Content-Location", Str(<<233>>))>>,
                               <<0, 128, 255, 31>>)>>
      [] n = "big"  -> <<Part_(TypeNamed("long"), <<H("X-Own", S("a b"))>>, [i \in 1..130 |-> i])>>
      [] n = "same" -> [i \in 1..3 |-> Part_(TypeNamed("text"), <<>>, <<1>>)]
Messages_ == { [kind |-> "message", headers |-> h, type |-> t, body |-> b, ver |-> 0, name |-> <<>>, value |-> None] :
               h \in HEADERS, t \in TYPES, b \in BODIES }
Types_ == { [kind |-> "type", headers |-> "", type |-> t, body |-> "", ver |-> 0, name |-> <<>>, value |-> None] : t \in TYPES }
(* the parameters of a version, with values of their kinds *)
Samples(kind) ==
    CASE kind = "version"     -> <<S("1.0"), S("7.14"), S("0"), S("1.15"), S("x")>>
      [] kind = "text"        -> <<S(""), S("a b"), Str(<<200>>)>>
      [] kind = "textvalue"   -> <<S(""), S("a b"), S("ab"), Str(<<200>>)>>
      [] kind = "short"       -> <<Num(<<>>), Num(<<127>>)>>
      [] kind = "integer"     -> <<Num(<<>>), Num(<<127>>), Num(<<128>>), Num(<<1, 0, 0>>)>>
      [] kind = "constrained" -> <<S("a b"), Num(<<>>), Num(<<56>>)>>
      [] kind = "untyped"     -> <<S(""), S("a b"), S("ab"), Str(<<200>>), Num(<<>>), Num(<<128>>)>>
      [] OTHER                -> <<>>
(* (the encoder uses the greatest number that a name has) *)
Rows(ver) == {r \in 1..Len(ParamsIn(ver)) : r = MaxOf(RowsNamed(ParamsIn(ver), ParamsIn(ver)[r][2]))}
Parameters_ == UNION { { [kind |-> "parameter", headers |-> "", type |-> "", body |-> "", ver |-> v, name |-> ParamsIn(v)[r][2], value |-> x] :
                         x \in Elems(Samples(ParamsIn(v)[r][3])) } : <<v, r>> \in UNION {{v} \X Rows(v) : v \in VERSIONS} }
All == (IF "message" \in KINDS THEN Messages_ ELSE {}) \cup (IF "type" \in KINDS THEN Types_ ELSE {})
       \cup (IF "parameter" \in KINDS THEN Parameters_ ELSE {})

(* ---- their octets ---------------------------------------------------------------- *)
TypeOctets(ct) ==
    LET body == Join2(<<MediaOf(ct.media)>> \o [j \in 1..Len(ct.params) |-> ParamOf(<<ct.params[j][1].c, ct.params[j][2]>>)])
    IN IF ct.params = <<>> THEN body ELSE ValueLengthOf(Len(body)) \o body
HeaderValue(kind, v) ==
    CASE kind \in {"estring", "text"} -> TextOf(v.c)
      [] kind = "boolean" -> IF v = Bool(TRUE) THEN <<128>> ELSE <<129>>
      [] kind = "from"    -> IF v = Str(NotInserted) THEN <<1, 129>> ELSE <<2 + Len(v.c), 128>> \o TextOf(v.c)
      [] kind = "version" -> VersionOf(v.c)
      [] kind = "long"    -> LongOf(v.n)
      [] kind = "mclass"  -> IF v.c \in Elems(Tokens.mclass) THEN <<127 + IndexOf(Tokens.mclass, v.c)>> ELSE v.c \o <<0>>
      [] OTHER            -> <<127 + IndexOf(Tokens[kind], v.c)>>
HeaderOctets(h) ==
    LET k == MmsNumber(h[1])
    IN IF k > 0 THEN <<128 + k>> \o HeaderValue(MmsTable[k][2], h[2]) ELSE h[1] \o <<0>> \o TextOf(h[2].c)
PartHeaderOctets(h) ==
    LET k == IndexOf(FieldNames, h[1])
    IN IF k > 0 THEN <<127 + k>> \o TextOf(h[2].c) ELSE h[1] \o <<0>> \o TextOf(h[2].c)
Uint(n) == UintvarOf(OctetsOf(n))
PartOctets(p) ==
    LET hd == TypeOctets(p.ct) \o Join2([j \in 1..Len(p.hdrs) |-> PartHeaderOctets(p.hdrs[j])])
    IN Uint(Len(hd)) \o Uint(Len(p.data)) \o hd \o p.data
Doc == <<60, 115, 62>>
Firsts == {MType, TransactionId, MVersion}
Order(q) == LET get(n) == IF HasKey(q, n) THEN Get(q, n) ELSE Str(Codes("drawn"))
            IN <<<<MType, get(MType)>>, <<TransactionId, get(TransactionId)>>, <<MVersion, get(MVersion)>>>>
               \o SelectSeq(q, LAMBDA h : h[1] \notin Firsts)
AllParts(x) == <<Presentation(Doc)>> \o PartsNamed(x.body)
MessageOctets(x) ==
    LET hs == Order(Sent(HeadersNamed(x.headers)))
    IN Join2([j \in 1..Len(hs) |-> HeaderOctets(hs[j])])
       \o <<128 + MmsNumber(CTName)>> \o TypeOctets(TypeNamed(x.type))
       \o Uint(Len(AllParts(x))) \o Join2([j \in 1..Len(AllParts(x)) |-> PartOctets(AllParts(x)[j])])
OctetsOf_(x) == CASE x.kind = "message" -> MessageOctets(x)
                  [] x.kind = "type" -> TypeOctets(TypeNamed(x.type))
                  [] x.kind = "parameter" -> LET p == ParamEncoding(x.name, x.value, x.ver)
                                             IN IF Is(p, "ok") THEN p.o ELSE <<>>
(* ---- what a reader shows ----------------------------------------------------------- *)
Dict(q) == q
ShownType(ct) == Tup(<<Str(ct.media), [k |-> "m", m |-> ct.params]>>)
ShownHeaders(x) ==
    LET hs == Order(Sent(HeadersNamed(x.headers)))
    IN [j \in 1..Len(hs) |-> <<Str(hs[j][1]), hs[j][2]>>] \o << <<Str(CTName), ShownType(TypeNamed(x.type))>> >>
ShownPart(p) == [headers |-> << <<Str(CTName), ShownType(p.ct)>> >> \o [j \in 1..Len(p.hdrs) |-> <<Str(p.hdrs[j][1]), p.hdrs[j][2]>>],
                 data |-> p.data, len |-> Len(p.data)]
ShownParts(x) == [j \in 1..Len(AllParts(x)) |-> ShownPart(AllParts(x)[j])]

(* ---- the clauses -------------------------------------------------------------------- *)
World(x) == [NoWorld EXCEPT !.parts = PartsNamed(x.body)]
Msg_(x) == [NewMsg(HeadersNamed(x.headers), TypeNamed(x.type)) EXCEPT !.parts = [j \in 1..Len(PartsNamed(x.body)) |-> j]]
JudgedMessage(x, o, hv, pv) ==
    LET p == Message(o)
    IN IF ~Is(p, "ok") THEN {"well-formed"}
       ELSE HeaderClauses(Msg_(x), p) \cup HeadersShown(hv, p)
            \cup Chk("nothing-after", p.n = Len(o) + 1)
            \cup BodyClauses(World(x), Msg_(x), Doc, p) \cup PartsShown(pv, p)
Judged(x, o) ==
    CASE x.kind = "message" -> JudgedMessage(x, o, ShownHeaders(x), ShownParts(x))
      [] x.kind = "type" -> LET ct == TypeNamed(x.type)
                            IN ContentTypeClauses(o, ct.media, [j \in 1..Len(ct.params) |-> <<ct.params[j][1].c, ct.params[j][2]>>])
      [] x.kind = "parameter" -> LET p == ParamIn(x.ver, o, 1)
                                     q == ParamEncoding(x.name, x.value, x.ver)
                                 IN IF ~Is(q, "ok") THEN {"no-encoding"}
                                    ELSE IF ~Is(p, "ok") THEN {"not-well-formed"}
                                    ELSE IF ~Is(p.p, "ok") THEN {"value-not-well-formed"}
                                    ELSE Chk("name", p.name = x.name) \cup Chk("value", p.p.v = x.value)
                                         \cup Chk("length", p.p.n = Len(o) + 1)

(* ---- what may happen to them -------------------------------------------------------- *)
Other(v) == CASE v.k = "s" -> (IF v.c = <<>> THEN Str(<<32>>) ELSE Str([v.c EXCEPT ![Len(v.c)] = @ + 1]))
              [] v.k = "n" -> Num(Append(v.n, 1))
              [] v.k = "b" -> Bool(~v.b)
              [] OTHER -> None
Change(o, k, d) ==
    CASE d = "drop" -> Cut(o, 1, k - 1) \o Cut(o, k + 1, Len(o))
      [] d = "again" -> Cut(o, 1, k) \o Cut(o, k, Len(o))
      [] OTHER -> [o EXCEPT ![k] = (@ + (CASE d = "low" -> 1 [] d = "nibble" -> 16 [] d = "high" -> 128)) % 256]
Init == m \in All /\ what = <<"none", 0>>
Next == /\ what[1] = "none"
        /\ \/ \E k \in 1..Len(OctetsOf_(m)) : \E d \in DELTAS : what' = <<d, k>>
           \/ m.kind = "message" /\ \E j \in 1..Len(ShownHeaders(m)) : what' = <<"header", j>>
           \/ m.kind = "message" /\ \E j \in 1..Len(AllParts(m)) : \E w \in {"p-data", "p-len", "p-headers"} : what' = <<w, j>>
        /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, what>>

Satisfied == what[1] = "none" => Judged(m, OctetsOf_(m)) = {}
Determined ==
    LET hv == ShownHeaders(m)
        pv == ShownParts(m)
        j  == what[2]
    IN CASE what[1] = "header" -> JudgedMessage(m, OctetsOf_(m), [hv EXCEPT ![j][2] = Other(@)], pv) # {}
         [] what[1] = "p-data" -> JudgedMessage(m, OctetsOf_(m), hv, [pv EXCEPT ![j].data = Append(@, 0)]) # {}
         [] what[1] = "p-len" -> JudgedMessage(m, OctetsOf_(m), hv, [pv EXCEPT ![j].len = @ + 1]) # {}
         [] what[1] = "p-headers" -> JudgedMessage(m, OctetsOf_(m), hv, [pv EXCEPT ![j].headers = Append(Tail(@), <<Str(<<1>>), None>>)]) # {}
         [] OTHER -> TRUE
EveryOctetMatters ==
    what[1] \in DELTAS =>
        LET o == OctetsOf_(m)
            c == Change(o, what[2], what[1])
        IN c = o \/ Judged(m, c) # {}
=============================================================================
