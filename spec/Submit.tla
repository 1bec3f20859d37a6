------------------------------- MODULE Submit -------------------------------
(***************************************************************************)
(* The SMS-SUBMIT message object: its settings, the transitions of its     *)
(* interface, and what the PDUs it yields must be.                         *)
(*                                                                         *)
(* State (a record, so that a trace specification can carry it along):     *)
(*   number, csca   projected values; csca may be None                     *)
(*   text           code points          fmt    -1 (automatic) or a number *)
(*   klass          -1 or 0..3           srr    BOOLEAN                    *)
(*   pid            0..255                                                 *)
(*   validity       [k: "none"], [k: "rel", s, us], [k: "abs", d, off]     *)
(*   ref, rand      -1 (automatic) or the number that was set              *)
(*   mr             the automatic TP-MR once drawn, else -1                *)
(*   drawn          <<reference, position>> of automatic references        *)
(*   pos            an upper bound of the number of draws so far           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Octets, Gsm0338, Tpdu, Periods
LOCAL INSTANCE TLC
(* clipped to the sequence *)
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)
LOCAL Ck(name, holds) == IF holds THEN {} ELSE {name}

Cap(fmt)   == CASE fmt = 0 -> 160 [] fmt = 4 -> 140 [] fmt = 8 -> 70
CapMp(fmt) == CASE fmt = 0 -> 153 [] fmt = 4 -> 134 [] fmt = 8 -> 67
MAXPARTS == 255

(* ---- settings ------------------------------------------------------------- *)
IsNumber(c) == LET d == IF IsPlus(c) THEN Cut(c, 2, Len(c)) ELSE c
               IN Len(d) \in 3..20 /\ \A i \in 1..Len(d) : d[i] \in 48..57

New(number, text) ==
    [number |-> number, csca |-> <<>>, text |-> text, fmt |-> -1, klass |-> -1,
     srr |-> FALSE, pid |-> 0, validity |-> [k |-> "none"], ref |-> -1, rand |-> -1,
     mr |-> -1, drawn |-> <<>>, pos |-> 0]

(* ---- what an encoding must be ---------------------------------------------- *)
AlphaOf(st) == IF st.fmt >= 0 THEN st.fmt ELSE IF Encodable(st.text) THEN 0 ELSE 8
CanHold(fmt, text) ==
    CASE fmt = 0 -> Encodable(text)
      [] fmt = 4 -> \A i \in 1..Len(text) : text[i] \in 0..255
      [] fmt = 8 -> \A i \in 1..Len(text) : text[i] \in 0..65535
      [] OTHER   -> FALSE
UnitsOf(fmt, text) == IF fmt = 0 THEN Encode(text, "strict") ELSE text

(* Where the parts of a unit sequence end: greedy, but a part that would   *)
(* end in an escape ends before it.                                        *)
RECURSIVE Ends(_, _, _)
Ends(units, from, cap) ==
    LET e == from + cap - 1
    IN IF e >= Len(units) THEN <<Len(units)>>
       ELSE LET e2 == IF units[e] = ESC THEN e - 1 ELSE e
            IN <<e2>> \o Ends(units, e2 + 1, cap)
(* In the other alphabets U+001B escapes nothing; a part that ends before  *)
(* one is nevertheless accepted.                                           *)
GoodSplit(fmt, units, sizes) ==
    LET cap == CapMp(fmt)
        n   == Len(sizes)
        at  == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, sizes)
        Full(i) == \/ sizes[i] = cap /\ (fmt = 0 => units[at[i + 1]] # ESC)
                   \/ sizes[i] = cap - 1 /\ units[at[i + 1] + 1] = ESC
    IN /\ at[n + 1] = Len(units)
       /\ \A i \in 1..n : sizes[i] \in 1..cap
       /\ \A i \in 1..(n - 1) : Full(i)
(* the fewest and the most parts a good split can have *)
FewestParts(fmt, units) ==
    IF Len(units) <= Cap(fmt) THEN 1
    ELSE IF fmt = 0 THEN Len(Ends(units, 1, CapMp(fmt)))
    ELSE (Len(units) + CapMp(fmt) - 1) \div CapMp(fmt)
MostParts(fmt, units) ==
    IF Len(units) <= Cap(fmt) THEN 1
    ELSE IF fmt = 0 THEN Len(Ends(units, 1, CapMp(fmt)))
    ELSE IF ESC \in { units[i] : i \in 1..Len(units) }
         THEN (Len(units) + CapMp(fmt) - 2) \div (CapMp(fmt) - 1)
    ELSE FewestParts(fmt, units)

ValidityOk(v) == v.k # "rel" \/ InRange(v.s, v.us)
(* what encoding does: "encode", "refuse" with a ValueError (a UnicodeError *)
(* is one), or "either" where the number of parts is up to the splitting     *)
Outcome(st) ==
    IF st.fmt >= 0 /\ st.fmt \notin {0, 4, 8} THEN "refuse"
    ELSE IF ~ValidityOk(st.validity) THEN "refuse"
    ELSE LET a == AlphaOf(st)
         IN IF ~CanHold(a, st.text) THEN "refuse"
            ELSE LET u == UnitsOf(a, st.text)
                 IN IF FewestParts(a, u) > MAXPARTS THEN "refuse"
                    ELSE IF MostParts(a, u) > MAXPARTS THEN "either" ELSE "encode"

(* ---- clauses over the parsed PDUs -------------------------------------------- *)
(* r.pdus: sequence of [pdu, length, cnt, seq] *)
Parsed(r) == [i \in 1..Len(r.pdus) |->
                IF IsHex(r.pdus[i].pdu) THEN ParseSubmit(FromHex(r.pdus[i].pdu))
                ELSE [ok |-> FALSE]]
AllParse(ps) == Len(ps) > 0 /\ \A i \in 1..Len(ps) : ps[i].ok

FieldClauses(st, r, ps) ==
    LET n == Len(ps)
        a == AlphaOf(st)
        multi == n > 1
    IN UNION { LET p == ps[i]
                   q == r.pdus[i]
               IN  Ck("upper-case", UpperHex(q.pdu))
              \cup Ck("length", q.length = p.len)
              \cup Ck("part-numbers", q.cnt = n /\ q.seq = i)
              \cup Ck("service-centre",
                      IF st.csca = <<>> THEN p.smsc.len = 0
                      ELSE /\ p.smsc.len = 1 + (Len(DigitsOf(st.csca)) + 1) \div 2
                           /\ p.smsc.toa = ToaOf(st.csca)
                           /\ p.smsc.digits = DigitsOf(st.csca))
              \cup Ck("message-type", p.first % 8 = 1 /\ p.first \div 128 = 0)
              \cup Ck("validity-format", SubmitVpf(p.first) =
                      (CASE st.validity.k = "none" -> 0 [] st.validity.k = "rel" -> 2
                         [] OTHER -> 3))
              \cup Ck("status-request", Srr(p.first) = st.srr)
              \cup Ck("header-indicator", Udhi(p.first) = multi)
              \cup Ck("message-reference",
                      IF st.ref >= 0 THEN p.mr = st.ref % 256
                      ELSE IF st.mr >= 0 THEN p.mr = st.mr
                      ELSE p.mr = ps[1].mr)
              \cup Ck("destination", p.toa = ToaOf(st.number) /\ p.digits = DigitsOf(st.number))
              \cup Ck("protocol-id", p.pid = st.pid)
              \cup Ck("data-coding",
                      /\ p.dcs = a + (IF st.klass >= 0 THEN 16 + st.klass ELSE 0))
             : i \in 1..n }

VpClauses(st, ps) ==
    UNION { LET v == st.validity
            IN CASE v.k = "none" -> {}
                 [] v.k = "rel" -> Ck("relative-validity", IsFloor(ps[i].vp[1], v.s))
                 [] v.k = "abs" -> Ck("absolute-validity", ps[i].vp = Stamp(v.d, v.off))
             : i \in { j \in 1..Len(ps) : Len(ps[j].vp) = (CASE st.validity.k = "none" -> 0
                              [] st.validity.k = "rel" -> 1 [] OTHER -> 7) } }

Header8(ps, i) == LET ies == Ies(Cut(ps[i].ud, 2, ps[i].ud[1] + 1))
                  IN IF Len(ies) = 1 /\ ies[1].id = 0 /\ Len(ies[1].data) = 3 /\ ps[i].ud[1] = 5
                     THEN [ok |-> TRUE, ref |-> ies[1].data[1], cnt |-> ies[1].data[2],
                           seq |-> ies[1].data[3]]
                     ELSE [ok |-> FALSE, ref |-> 0, cnt |-> 0, seq |-> 0]
TextClauses(st, ps) ==
    LET n == Len(ps)
        a == AlphaOf(st)
        al == a \div 4
        units == UnitsOf(a, st.text)
        multi == n > 1
        formed == \A i \in 1..n : /\ UdWellFormed(al, Udhi(ps[i].first), ps[i].udl, ps[i].ud)
                                  /\ Alphabet(ps[i].dcs) = al
                                  /\ Udhi(ps[i].first) = multi
    IN IF ~formed THEN {"user-data-length"}
       ELSE LET us == [i \in 1..n |-> Units(al, multi, ps[i].udl, ps[i].ud)]
                hd == [i \in 1..n |-> IF multi THEN Header8(ps, i)
                                      ELSE [ok |-> TRUE, ref |-> 0, cnt |-> 1, seq |-> 1]]
            IN   Ck("user-data-size", \A i \in 1..n : Len(ps[i].ud) <= 140)
            \cup Ck("padding", \A i \in 1..n : PaddingZero(al, multi, ps[i].udl, ps[i].ud))
            \cup Ck("one-if-it-fits", multi = (Len(units) > Cap(a)))
            \cup Ck("concatenation-header",
                    \A i \in 1..n : hd[i].ok /\ hd[i].cnt = n /\ hd[i].seq = i /\ hd[i].ref = hd[1].ref)
            \cup Ck("text", Join(us) = units)
            \cup Ck("fragmentation", multi =>
                      GoodSplit(a, units, [i \in 1..n |-> Len(us[i])]))
(* reference of the concatenation header of a multipart result, or -1 *)
ConcatRef(ps) == IF Len(ps) > 1 /\ \A i \in 1..Len(ps) : ps[i].ok /\ Len(ps[i].ud) >= 6
                 THEN LET h == Header8(ps, 1) IN IF h.ok THEN h.ref ELSE -1
                 ELSE -1
WINDOW == 255
RefClauses(st, ps) ==
    LET c  == ConcatRef(ps)
        p1 == st.pos + (IF st.ref < 0 /\ st.mr < 0 THEN 1 ELSE 0)
    IN IF Len(ps) <= 1 THEN {}
       ELSE IF c = -1 THEN {"no-reference"}
       ELSE IF st.rand >= 0 THEN Ck("given-reference", c = st.rand % 256)
       ELSE Ck("fresh-reference",
               \A i \in 1..Len(st.drawn) :
                  st.drawn[i][1] = c => p1 - st.drawn[i][2] >= WINDOW)

(* ---- transitions ------------------------------------------------------------- *)
KEEP == 260
(* after an encoding with outcome r (ps = its parsed PDUs, <<>> if refused) *)
AfterEncode(st, ps) ==
    LET newmr == IF st.ref >= 0 THEN -1 ELSE IF st.mr >= 0 THEN st.mr
                 ELSE IF Len(ps) > 0 /\ ps[1].ok THEN ps[1].mr ELSE -1
        p1 == st.pos + (IF st.ref < 0 /\ st.mr < 0 THEN 1 ELSE 0)
        c  == ConcatRef(ps)
        drew == Len(ps) > 1 /\ st.rand < 0 /\ c >= 0
        p2 == p1 + (IF drew \/ Len(ps) = 0 THEN 1 ELSE 0)
        dr == IF drew THEN Append(st.drawn, <<c, p1>>) ELSE st.drawn
    IN [st EXCEPT !.mr = newmr, !.pos = p2,
                  !.drawn = IF Len(dr) > KEEP THEN Cut(dr, Len(dr) - KEEP + 1, Len(dr)) ELSE dr]
=============================================================================
