-------------------------------- MODULE Mms --------------------------------
(* MMS PDUs of WAP-209 1.0: header values, messages and multipart bodies,  *)
(* as parsers in the manner of module Wsp.                                 *)
EXTENDS Wsp

Token(kind, s, i) ==
    IF i > Len(s) THEN End
    ELSE IF s[i] - 127 \in 1..Len(Tokens[kind]) THEN Ok(Str(Tokens[kind][s[i] - 127]), i + 1)
    ELSE IF kind \in DOMAIN Fallback THEN Ok(Str(Fallback[kind]), i + 1)
    ELSE No
Boolean(s, i) == IF i > Len(s) THEN End
                 ELSE IF s[i] = 128 THEN Ok(Bool(TRUE), i + 1)
                 ELSE IF s[i] = 129 THEN Ok(Bool(FALSE), i + 1) ELSE No
MessageClass(s, i) == LET p == Token("mclass", s, i)
                      IN IF Is(p, "no") THEN TokenText(s, i) ELSE p

(* value-length, then exactly that many octets understood by p *)
Bounded(l, p) == IF Is(p, "ok") THEN (IF p.n = l.n + Count(l) THEN p ELSE Undef) ELSE p
Plain(c) == \A j \in 1..Len(c) : c[j] < 128
EString(s, i) ==
    LET l == ValueLength(s, i)
        c == Charset(s, l.n)
        t == TextString(s, c.n)
        p == IF ~Is(c, "ok") THEN (IF Is(c, "no") THEN Undef ELSE c)
             ELSE IF ~Is(t, "ok") THEN t
             ELSE IF Plain(t.v.c) \/ c.v = Str(Codes("iso-8859-1")) THEN t
             ELSE Undef
    IN IF i > Len(s) THEN End
       ELSE IF s[i] > 31 \/ s[i] = 0 THEN TextString(s, i)
       ELSE IF ~Is(l, "ok") THEN l
       ELSE Bounded(l, p)
From(s, i) ==
    LET l == ValueLength(s, i)
        p == IF l.n > Len(s) THEN End
             ELSE IF s[l.n] = 129 THEN Ok(Str(NotInserted), l.n + 1)
             ELSE IF s[l.n] = 128 THEN EString(s, l.n + 1)
             ELSE Undef
    IN IF Is(l, "ok") THEN Bounded(l, p) ELSE l
(* absolute or relative times: dates or numbers for Expiry, the tagged      *)
(* number for Delivery-Time                                                *)
Expiry(s, i) ==
    LET l == ValueLength(s, i)
        p == IF l.n > Len(s) THEN End
             ELSE IF s[l.n] = 128 THEN DateValue(s, l.n + 1)
             ELSE IF s[l.n] = 129 THEN Integer(s, l.n + 1)
             ELSE No
    IN IF ~Is(l, "ok") THEN l ELSE IF Is(p, "no") THEN Undef ELSE Bounded(l, p)
DeliveryTime(s, i) ==
    LET l == ValueLength(s, i)
        p == IF s[l.n] = 128 THEN Long(s, l.n + 1) ELSE Integer(s, l.n + 1)
        q == IF ~Is(p, "ok") THEN p
             ELSE Ok(Tup(<<Str(Codes(IF s[l.n] = 128 THEN "absolute" ELSE "relative")), p.v>>), p.n)
    IN IF ~Is(l, "ok") THEN l
       ELSE IF l.n > Len(s) THEN End
       ELSE IF s[l.n] \notin {128, 129} \/ Is(p, "no") THEN Undef
       ELSE Bounded(l, q)

MmsValue(kind, s, i) ==
    CASE kind = "estring" -> EString(s, i)
      [] kind = "text"    -> TextString(s, i)
      [] kind = "date"    -> DateValue(s, i)
      [] kind = "boolean" -> Boolean(s, i)
      [] kind = "dtime"   -> DeliveryTime(s, i)
      [] kind = "expiry"  -> Expiry(s, i)
      [] kind = "from"    -> From(s, i)
      [] kind = "mclass"  -> MessageClass(s, i)
      [] kind = "version" -> Version(s, i)
      [] kind = "long"    -> Long(s, i)
      [] kind = "ctype"   -> ContentType(s, i)
      [] OTHER            -> Token(kind, s, i)
(* v is [name, value, wk: by assigned number]; Content-Type has a content   *)
(* type record as its value                                                *)
MmsHeader(s, i) ==
    LET k == s[i] - 128
        p == MmsValue(MmsTable[k][2], s, i + 1)
        a == ApplicationHeader(s, i)
    IN IF i > Len(s) THEN End
       ELSE IF k \in 1..Len(MmsTable) THEN
           (IF Is(p, "ok") THEN Ok([name |-> MmsTable[k][1], v |-> p.v, wk |-> TRUE], p.n)
            ELSE IF Is(p, "no") THEN Undef ELSE p)
       ELSE IF k >= 0 THEN Undef
       ELSE IF Is(a, "ok") THEN Ok([name |-> a.v[1].c, v |-> a.v[2], wk |-> FALSE], a.n)
       ELSE a
CTName == Codes("Content-Type")
RECURSIVE Headers(_, _, _)
(* up to the Content-Type header or the end *)
Headers(s, i, acc) ==
    IF i > Len(s) THEN Ok(acc, i)
    ELSE LET p == MmsHeader(s, i)
         IN IF ~Is(p, "ok") THEN p
            ELSE IF p.v.name = CTName THEN Ok(Append(acc, p.v), p.n)
            ELSE Headers(s, p.n, Append(acc, p.v))

RECURSIVE PartHeaders(_, _, _)
PartHeaders(s, i, acc) ==
    IF i > Len(s) THEN Ok(acc, i)
    ELSE LET p == Header(s, i)
         IN IF Is(p, "ok") THEN PartHeaders(s, p.n, Append(acc, p.v)) ELSE Undef
(* v is [ct, hdrs: sequence of <<name, value>>, known: the headers are      *)
(* understood, data]                                                       *)
Part(s, i) ==
    LET h == Uintvar(s, i)
        d == Uintvar(s, h.n)
        hd == Sub(s, d.n, d.n + Count(h) - 1)
        ct == ContentType(hd, 1)
        hs == PartHeaders(hd, ct.n, <<>>)
        e == d.n + Count(h) + Count(d)
    IN IF ~Is(h, "ok") THEN h
       ELSE IF ~Is(d, "ok") THEN d
       ELSE IF e - 1 > Len(s) THEN End
       ELSE IF ~Is(ct, "ok") THEN Undef
       ELSE Ok([ct |-> ct.v, known |-> Is(hs, "ok"), hdrs |-> IF Is(hs, "ok") THEN hs.v ELSE <<>>,
                data |-> Sub(s, d.n + Count(h), e - 1)], e)
RECURSIVE Parts(_, _, _, _)
Parts(s, i, n, acc) ==
    IF n = 0 THEN Ok(acc, i)
    ELSE LET p == Part(s, i)
         IN IF Is(p, "ok") THEN Parts(s, p.n, n - 1, Append(acc, p.v)) ELSE p
Body(s, i) ==
    LET n == Uintvar(s, i)
    IN IF i > Len(s) THEN Ok(<<>>, i)
       ELSE IF ~Is(n, "ok") THEN n
       ELSE IF Count(n) > 10000 THEN Undef
       ELSE Parts(s, n.n, Count(n), <<>>)
(* v is [hdrs, parts] *)
Message(s) ==
    LET h == Headers(s, 1, <<>>)
        b == Body(s, h.n)
    IN IF ~Is(h, "ok") THEN h
       ELSE IF ~Is(b, "ok") THEN b
       ELSE Ok([hdrs |-> h.v, parts |-> b.v], b.n)

(* ---- what a decoded message shows ------------------------------------------------ *)
Names(hs) == {hs[j].name : j \in 1..Len(hs)}
Once(hs) == \A a \in 1..Len(hs) : \A b \in 1..Len(hs) : hs[a].name = hs[b].name => a = b
(* an observed header value is the parsed one *)
Shows(v, h) == IF h.name = CTName THEN IsContentType(v, h.v) ELSE v = h.v
(* m: an observed dictionary (pairs sorted by name) *)
Lookup(m, name) == LET J == {j \in 1..Len(m) : m[j][1] = Str(name)}
                   IN IF J = {} THEN None ELSE m[CHOOSE j \in J : TRUE][2]
PartShows(p, q) ==      \* p observed [headers, data], q parsed
    Chk("part-data", p.data = q.data)
    \cup Chk("part-length", p.len = Len(q.data))
    \cup Chk("part-content-type", IsContentType(Lookup(p.headers, CTName), q.ct))
    \cup Chk("part-headers",
             q.known /\ Distinct(q.hdrs) /\ CTName \notin {q.hdrs[j][1].c : j \in 1..Len(q.hdrs)}
             => /\ Len(p.headers) = Len(q.hdrs) + 1
                /\ \A j \in 1..Len(q.hdrs) : Lookup(p.headers, q.hdrs[j][1].c) = q.hdrs[j][2])
(* the message the library shows, r.v = [headers, parts], is the parsed one;  *)
(* headers that are not there may keep their default values                *)
Defaults == {Str(Codes("Message-Type")), Str(Codes("Transaction-Id")), Str(Codes("MMS-Version")),
             Str(CTName)}
HeadersShow(v, hs) ==
    Chk("headers", \A j \in 1..Len(hs) : Shows(Lookup(v, hs[j].name), hs[j]))
    \cup Chk("other-headers", \A i \in 1..Len(v) :
               v[i][1] \in Defaults \/ \E j \in 1..Len(hs) : v[i][1] = Str(hs[j].name))
MessageShows(r, m) ==
    IF ~r.ok THEN {"refused"}
    ELSE HeadersShow(r.v.headers, m.hdrs)
         \cup (IF Len(r.v.parts) # Len(m.parts) THEN {"number-of-parts"}
               ELSE UNION {PartShows(r.v.parts[j], m.parts[j]) : j \in 1..Len(m.parts)})
=============================================================================
