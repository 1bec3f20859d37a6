------------------------------ MODULE LawsDeliver -----------------------------
(***************************************************************************)
(* The clauses that judge a decoded DELIVER or STATUS-REPORT determine it:  *)
(* from an abstract message are made its PDU, by an encoder written from    *)
(* the standard, and the observation a reader must have (Seen).  The PDU is *)
(* well formed, Seen satisfies every clause, and neither can an observed    *)
(* field be changed nor, outside of the bits no field reports, an octet of  *)
(* the PDU, without breaking one.                                           *)
(***************************************************************************)
EXTENDS Submit, Deliver
CONSTANTS KINDS, CENTRES, SENDERS, CODINGS, HEADERS, TEXTS, STAMPS, STATUSES, DELTAS
VARIABLES m, what      \* the message; the change that is made
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)

(* ---- abstract messages -------------------------------------------------------- *)
Cycle(s, n) == [i \in 1..n |-> s[1 + ((i - 1) % Len(s))]]
Num(n) == CASE n = "none" -> <<>>
            [] n = "odd"  -> <<43, 51, 52, 54, 54, 48>>
            [] n = "even" -> <<51, 52, 54, 54>>
            [] n = "long" -> [i \in 1..20 |-> 48 + (i % 10)]
            [] n = "name1" -> <<64>>
            [] n = "name8" -> <<97, 64, 8364, 233, 98, 99, 100>>
            [] n = "name7" -> <<65, 66, 67, 68, 69, 70, 71>>
            [] n = "name11" -> Cycle(<<87, 105, 110, 32>>, 11)
IsName(n) == n \in {"name1", "name7", "name8", "name11"}
TextNamed(a, n) ==
    CASE n = "empty" -> <<>>
      [] n = "at"    -> IF a = 0 THEN Cycle(<<64, 97>>, 7) ELSE <<0, 27, 255>>
      [] n = "eight" -> IF a = 0 THEN Cycle(<<97, 64, 126>>, 6) ELSE Cycle(<<27, 10, 255, 0>>, 8)
      [] n = "wide"  -> CASE a = 0 -> <<8364, 64>> [] a = 4 -> <<128, 13>> [] OTHER -> <<1078, 65534, 27, 0>>
      [] n = "fit"   -> Cycle(<<64, 98, 97>>, CASE a = 0 -> 120 [] a = 4 -> 110 [] OTHER -> 55)
Elements(h) ==
    CASE h = "none"  -> <<>>
      [] h = "c8"    -> << [id |-> 0, data |-> <<7, 3, 2>>] >>
      [] h = "c16"   -> << [id |-> 8, data |-> <<1, 200, 3, 3>>] >>
      [] h = "p8"    -> << [id |-> 4, data |-> <<240, 16>>] >>
      [] h = "p16"   -> << [id |-> 5, data |-> <<11, 132, 35, 240>>] >>
      [] h = "other" -> << [id |-> 112, data |-> <<>>], [id |-> 10, data |-> <<0, 8, 5>>] >>
      [] h = "mixed" -> << [id |-> 37, data |-> <<1>>], [id |-> 5, data |-> <<0, 1, 2, 3>>],
                           [id |-> 0, data |-> <<255, 2, 1>>], [id |-> 36, data |-> <<2, 2>>] >>
Moment(s) ==
    CASE s = "utc"   -> [d |-> <<2009, 8, 30, 17, 5, 9>>, off |-> 0]
      [] s = "east"  -> [d |-> <<2012, 3, 1, 0, 10, 59>>, off |-> 345]
      [] s = "west"  -> [d |-> <<1999, 12, 31, 23, 59, 0>>, off |-> -720]
      [] s = "leap"  -> [d |-> <<2068, 2, 29, 12, 0, 0>>, off |-> -15]
Coding(c) == CASE c = "gsm" -> 0 [] c = "class" -> 17 [] c = "store" -> 216 [] c = "eight" -> 4
               [] c = "flash" -> 245 [] c = "ucs" -> 8 [] c = "ucs-class" -> 27 [] c = "mwi" -> 224
Delivers == { [kind |-> "deliver", centre |-> c, from |-> f, coding |-> d, header |-> h, text |-> t, at |-> a] :
              c \in CENTRES, f \in SENDERS, d \in CODINGS, h \in HEADERS, t \in TEXTS, a \in STAMPS }
Reports == { [kind |-> "report", centre |-> c, from |-> f, at |-> a, then |-> b, status |-> s] :
             c \in CENTRES, f \in {x \in SENDERS : ~IsName(x)}, a \in STAMPS, b \in STAMPS,
             s \in {IF y = 999 THEN -1 ELSE y : y \in STATUSES} }
Messages == (IF "deliver" \in KINDS THEN Delivers ELSE {}) \cup (IF "report" \in KINDS THEN Reports ELSE {})

(* ---- their PDUs ------------------------------------------------------------------ *)
Filled(c) == PackNibbles(DigitsOf(c))
Centre(c) == IF c = "none" THEN <<0>>
             ELSE <<1 + Len(Filled(Num(c))), ToaOf(Num(c))>> \o Filled(Num(c))
Address(f) ==
    IF IsName(f)
    THEN LET o == PackSeptets(Encode(Num(f), "strict"))
             k == Len(Encode(Num(f), "strict"))
         IN <<(7 * k + 3) \div 4, 208>> \o o
    ELSE <<Len(DigitsOf(Num(f))), ToaOf(Num(f))>> \o Filled(Num(f))
StampOf(s) == Stamp(Moment(s).d, Moment(s).off)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<q[1].id, Len(q[1].data)>> \o q[1].data \o Flat(Tail(q))
Header(h) == IF h = "none" THEN <<>> ELSE LET o == Flat(Elements(h)) IN <<Len(o)>> \o o
Alpha(x) == AlphabetOf(Coding(x.coding))
Fill(hd) == (8 * Len(hd) + 6) \div 7
UserData(x) ==        \* <<length, octets>>
    LET a  == Alpha(x)
        hd == Header(x.header)
        us == UnitsOf(a, TextNamed(a, x.text))
    IN CASE a = 0 -> LET k == Fill(hd)
                         body == PackSeptets([j \in 1..k |-> 0] \o us)
                     IN <<k + Len(us), hd \o Cut(body, Len(hd) + 1, Len(body))>>
         [] a = 4 -> <<Len(hd) + Len(us), hd \o us>>
         [] a = 8 -> LET o == FromUcs2(us) IN <<Len(hd) + Len(o), hd \o o>>
Pdu(x) ==
    Centre(x.centre) \o
    (IF x.kind = "deliver"
     THEN <<4 + (IF x.header = "none" THEN 0 ELSE 64)>> \o Address(x.from)
          \o <<63, Coding(x.coding)>> \o StampOf(x.at) \o <<UserData(x)[1]>> \o UserData(x)[2]
     ELSE <<6, 171>> \o Address(x.from) \o StampOf(x.at) \o StampOf(x.then)
          \o (IF x.status = -1 THEN <<>> ELSE <<x.status>>))

(* ---- what their reader must see -------------------------------------------------- *)
LastOf(q, ids) == LET S == { i \in 1..Len(q) : q[i].id \in ids }
                IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Seen(x) ==
    LET q  == IF x.kind = "deliver" THEN Elements(x.header) ELSE <<>>
        c  == LastOf(q, {0, 8})
        p  == LastOf(q, {4, 5})
        cd == q[c].data
        pd == q[p].data
        cc == IF c = 0 THEN <<>> ELSE IF q[c].id = 0 THEN cd ELSE <<256 * cd[1] + cd[2], cd[3], cd[4]>>
        utc(s) == Date(ShiftMinutes(Moment(s).d, -Moment(s).off) \o <<0>>)
        local(s) == Date(Moment(s).d \o <<0>>)
        two(n) == <<48 + ((n % 100) \div 10), 48 + (n % 10)>>
        shown(s) == LET d == Moment(s).d IN two(d[1]) \o <<47>> \o two(d[2]) \o <<47>> \o two(d[3]) \o <<32>>
                                            \o two(d[4]) \o <<58>> \o two(d[5]) \o <<58>> \o two(d[6])
        bar == <<124>>
        f == IF x.kind = "deliver"
             THEN [csca |-> IF x.centre = "none" THEN None ELSE Str(Num(x.centre)), number |-> Str(Num(x.from)),
                   pid |-> Int_(63), dcs |-> Int_(Coding(x.coding)), fmt |-> Int_(Alpha(x)), date |-> utc(x.at),
                   sr |-> None, type |-> None, text |-> Str(TextNamed(Alpha(x), x.text)),
                   ref |-> IF c = 0 THEN None ELSE Int_(cc[1]), cnt |-> IF c = 0 THEN None ELSE Int_(cc[2]),
                   seq |-> IF c = 0 THEN None ELSE Int_(cc[3])]
             ELSE [csca |-> IF x.centre = "none" THEN None ELSE Str(Num(x.centre)),
                   number |-> Str(CASE x.status = 0 -> <<83, 82, 45, 79, 75>>
                                    [] x.status = 48 -> <<83, 82, 45, 83, 84, 79, 82, 69, 68>>
                                    [] OTHER -> <<83, 82, 45, 85, 78, 75, 78, 79, 87, 78>>),
                   pid |-> None, dcs |-> None, fmt |-> Int_(8), date |-> local(x.at), sr |-> None, type |-> Int_(3),
                   text |-> Str(Num(x.from) \o bar \o shown(x.at) \o bar
                                \o (IF x.status \in {-1, 0} THEN shown(x.then) ELSE <<>>)),
                   ref |-> Int_(171), cnt |-> None, seq |-> None]
    IN [d |-> f, a |-> f,
        udh |-> IF q = <<>> THEN [some |-> FALSE, concat |-> None, ports |-> None, ies |-> <<>>]
                ELSE [some |-> TRUE,
                      concat |-> IF c = 0 THEN None ELSE Tup([i \in 1..3 |-> Int_(cc[i])] \o <<Bool(q[c].id = 0)>>),
                      ports |-> IF p = 0 THEN None
                                ELSE Tup(IF q[p].id = 4 THEN <<Int_(pd[1]), Int_(pd[2]), Bool(TRUE)>>
                                         ELSE <<Int_(256 * pd[1] + pd[2]), Int_(256 * pd[3] + pd[4]), Bool(FALSE)>>),
                      ies |-> SetToSeq({ <<q[i].id, q[i].data>> : i \in { j \in 1..Len(q) :
                                          \A k \in (j + 1)..Len(q) : q[k].id # q[j].id } })],
        sr |-> IF x.kind = "deliver" THEN [some |-> FALSE]
               ELSE [some |-> TRUE, recipient |-> Str(Num(x.from)), scts |-> local(x.at), dt |-> local(x.then),
                     status |-> IF x.status = -1 THEN None ELSE Int_(x.status)]]

(* ---- what may happen to them ------------------------------------------------------ *)
Changed1(v) == IF v.k = "i" THEN Int_(v.v + 1)
               ELSE IF v.k = "none" THEN Int_(0)
               ELSE IF v.k = "s" THEN (IF v.c = <<>> THEN Str(<<32>>) ELSE Str([v.c EXCEPT ![Len(v.c)] = (@ + 1) % 128]))
               ELSE IF v.k = "d" THEN Date([v.d EXCEPT ![6] = (@ + 1) % 60])
               ELSE None
Observed(v, w) ==       \* the observation v with the field w changed
    CASE w[1] \in {"d", "a"} -> [v EXCEPT ![w[1]] = [@ EXCEPT ![w[2]] = Changed1(@)]]
      [] w[1] = "udh" -> [v EXCEPT !.udh = IF w[2] = "ies"
                                           THEN [@ EXCEPT !.ies = Append(@, <<99, <<>> >>)]
                                           ELSE IF w[2] = "some" THEN [@ EXCEPT !.some = ~@]
                                           ELSE [@ EXCEPT ![w[2]] = IF @.k = "t" THEN Tup([@.t EXCEPT ![2] = Changed1(@)])
                                                                    ELSE Tup(<<Int_(0), Int_(0), Bool(TRUE)>>)]]
      [] w[1] = "sr" -> [v EXCEPT !.sr = [@ EXCEPT ![w[2]] = Changed1(@)]]
Fields(x) ==
    LET fs == IF x.kind = "deliver"
              THEN {"csca", "number", "pid", "dcs", "fmt", "date", "sr", "type", "text", "ref", "cnt", "seq"}
              ELSE {"csca", "number", "text", "ref", "date", "type", "fmt"}
    IN ({"d", "a"} \X fs)
       \cup (IF x.kind = "deliver"
             THEN {"udh"} \X (IF x.header = "none" THEN {"some"} ELSE {"some", "concat", "ports", "ies"})
             ELSE {"sr"} \X {"recipient", "scts", "dt", "status"})
Change(o, k, d) ==
    CASE d = "drop" -> Cut(o, 1, k - 1) \o Cut(o, k + 1, Len(o))
      [] d = "again" -> Cut(o, 1, k) \o Cut(o, k, Len(o))
      [] OTHER -> [o EXCEPT ![k] = (@ + (CASE d = "low" -> 1 [] d = "nibble" -> 16 [] d = "high" -> 128)) % 256]
Hex(o) == HexOf(o)
Judged(o, v) ==
    CASE Kind(Hex(o), TRUE) = "deliver" ->
           LET p == ParseDeliver(o) IN HeaderClauses(p, v) \cup TextClausesD(p, v) \cup DeliverUdhClauses(p, v)
      [] Kind(Hex(o), TRUE) = "report" -> ReportClauses(ParseReport(o), v)
      [] OTHER -> {"not-well-formed"}

Init == m \in Messages /\ what = <<"none", 0>>
Next == /\ what[1] = "none"
        /\ \/ \E w \in Fields(m) : what' = w
           \/ \E k \in 1..Len(Pdu(m)) : \E d \in DELTAS : what' = <<d, k>>
        /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, what>>

Satisfied == what[1] = "none" => /\ Kind(Hex(Pdu(m)), TRUE) = m.kind
                                 /\ Judged(Pdu(m), Seen(m)) = {}
Determined == what[1] \in {"d", "a", "udh", "sr"} => Judged(Pdu(m), Observed(Seen(m), what)) # {}
(* Octets that leave what is seen alone: the first one (flags), types of     *)
(* address and numbering plans, zones of reports, filling bits, what follows. *)
Silent(o, k) ==
    LET first == Len(Centre(m.centre)) + 1
        toa   == first + (IF m.kind = "deliver" THEN 2 ELSE 3)
        ud    == Len(o) - (IF m.kind = "deliver" THEN Len(UserData(m)[2]) ELSE 0)
        hd    == IF m.kind = "deliver" THEN Len(Header(m.header)) ELSE 0
    IN \/ k \in {first, toa}
       \/ (m.centre # "none" /\ k = 2)
       \/ (m.kind = "report" /\ k \in {toa + 7 + Len(Address(m.from)) - 2, toa + 14 + Len(Address(m.from)) - 2})
       \/ (m.kind = "deliver" /\ Alpha(m) = 0 /\ (k = ud + hd + 1 \/ k >= Len(o) - 1 \/ (m.text = "empty" /\ k >= ud + hd - 2)))
       \/ (IsName(m.from) /\ k = toa + Len(Address(m.from)) - 2)
EveryOctetMatters ==
    what[1] \in DELTAS =>
        LET o == Pdu(m)
            c == Change(o, what[2], what[1])
        IN Cut(c, 1, Len(o)) = o \/ Silent(o, what[2]) \/ Judged(c, Seen(m)) # {}
=============================================================================
