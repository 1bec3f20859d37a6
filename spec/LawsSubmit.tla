------------------------------ MODULE LawsSubmit ------------------------------
(***************************************************************************)
(* The clauses that judge the PDUs of a SUBMIT message say neither too      *)
(* much nor too little: an encoder written from the standard (Reference)   *)
(* satisfies them for every combination of settings, and no octet of its   *)
(* PDUs can be changed, left out or added without breaking one of them.    *)
(* A state holds a combination of settings, a part and a place in it; the  *)
(* place 0 leaves the PDUs as they are.                                    *)
(***************************************************************************)
EXTENDS Submit
CONSTANTS NUMBERS, CSCAS, TEXTS, PIDS, VALIDITIES, REFS, DELTAS,
          FMTS, KLASSES    \* plus one: 0 is "not set"
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)
VARIABLES st, part, at, how

(* ---- arguments, by name ------------------------------------------------------- *)
NumberOf(n) == CASE n = "odd"  -> <<43, 51, 52, 54, 54, 48>>
                 [] n = "even" -> <<51, 52, 54, 54>>
                 [] n = "long" -> [i \in 1..20 |-> 48 + (i % 10)]
                 [] n = "none" -> <<>>
Cycle(s, n) == [i \in 1..n |-> s[1 + ((i - 1) % Len(s))]]
TextOfName(n) == CASE n = "empty"  -> <<>>
               [] n = "short"  -> <<72, 101, 108, 108, 111, 64, 13>>
               [] n = "seven"  -> Cycle(<<64, 97>>, 7)
               [] n = "eight"  -> Cycle(<<97, 64, 126>>, 8)
               [] n = "full"   -> Cycle(<<97, 64, 46>>, 160)
               [] n = "escape" -> Cycle(<<97>>, 152) \o <<8364, 98>> \o Cycle(<<97>>, 10)
               [] n = "two"    -> Cycle(<<98, 64>>, 161)
               [] n = "ucs"    -> <<1078, 97, 65534>>
               [] n = "ucs70"  -> Cycle(<<1078, 97, 65534>>, 70)
               [] n = "ucs2"   -> Cycle(<<1078, 97, 27>>, 71)
               [] n = "oct"    -> <<0, 255, 27>>
               [] n = "oct140" -> Cycle(<<0, 255, 27>>, 140)
               [] n = "oct2"   -> Cycle(<<0, 255, 27>>, 141)
ValidityOf(v) == CASE v = "none" -> [k |-> "none"]
                   [] v = "rel"  -> [k |-> "rel", s |-> 4000, us |-> 1]
                   [] v = "most" -> [k |-> "rel", s |-> MaxPeriod, us |-> 0]
                   [] v = "east" -> [k |-> "abs", d |-> <<2031, 12, 9, 23, 4, 50>>, off |-> 345]
                   [] v = "west" -> [k |-> "abs", d |-> <<1999, 1, 30, 0, 59, 0>>, off |-> -720]
Settings ==
    { [New(NumberOf(n), TextOfName(t)) EXCEPT !.csca = NumberOf(c), !.fmt = f, !.klass = k, !.srr = s,
           !.pid = p, !.validity = ValidityOf(v), !.ref = r, !.rand = (r * 7) % 300] :
      n \in NUMBERS, c \in CSCAS, t \in TEXTS, f \in {g - 1 : g \in FMTS}, k \in {j - 1 : j \in KLASSES}, s \in BOOLEAN,
      p \in PIDS, v \in VALIDITIES, r \in REFS }
Encoded == { s \in Settings : Outcome(s) = "encode" }

(* ---- an encoder written from the standard ------------------------------------- *)
Filled(c) == PackNibbles(DigitsOf(c))
Smsc(s) == IF s.csca = <<>> THEN <<0>>
           ELSE <<1 + Len(Filled(s.csca)), ToaOf(s.csca)>> \o Filled(s.csca)
GreatestPeriod(secs) == CHOOSE v \in 0..255 : IsFloor(v, secs)
Vp(v) == CASE v.k = "none" -> <<>> [] v.k = "rel" -> <<GreatestPeriod(v.s)>> [] OTHER -> Stamp(v.d, v.off)
Vpf(v) == CASE v.k = "none" -> 0 [] v.k = "rel" -> 2 [] OTHER -> 3
Pieces(a, units) ==
    IF Len(units) <= Cap(a) THEN <<units>>
    ELSE LET e == IF a = 0 THEN Ends(units, 1, CapMp(a))
                  ELSE [i \in 1..FewestParts(a, units) |->
                          IF i * CapMp(a) > Len(units) THEN Len(units) ELSE i * CapMp(a)]
         IN [i \in 1..Len(e) |-> Cut(units, IF i = 1 THEN 1 ELSE e[i - 1] + 1, e[i])]
Header(s, n, i) == <<5, 0, 3, s.rand % 256, n, i>>
Ud(s, a, piece, n, i) ==
    LET hd == IF n > 1 THEN Header(s, n, i) ELSE <<>>
    IN CASE a = 0 -> (IF n = 1 THEN PackSeptets(piece)
                      ELSE hd \o Cut(PackSeptets([j \in 1..7 |-> 0] \o piece), 7, 140))
         [] a = 4 -> hd \o piece
         [] a = 8 -> hd \o FromUcs2(piece)
Udl(a, piece, n, ud) == IF a = 0 THEN Len(piece) + (IF n > 1 THEN 7 ELSE 0) ELSE Len(ud)
Reference(s) ==
    LET a  == AlphaOf(s)
        ps == Pieces(a, UnitsOf(a, s.text))
        n  == Len(ps)
    IN [i \in 1..n |->
          LET ud == Ud(s, a, ps[i], n, i)
          IN Smsc(s)
             \o <<1 + 8 * Vpf(s.validity) + (IF s.srr THEN 32 ELSE 0) + (IF n > 1 THEN 64 ELSE 0),
                  s.ref % 256, Len(DigitsOf(s.number)), ToaOf(s.number)>>
             \o Filled(s.number)
             \o <<s.pid, a + (IF s.klass >= 0 THEN 16 + s.klass ELSE 0)>>
             \o Vp(s.validity) \o <<Udl(a, ps[i], n, ud)>> \o ud]

(* ---- what may happen to a PDU ----------------------------------------------------- *)
Change(o, k, d) ==
    CASE d = "drop" -> Cut(o, 1, k - 1) \o Cut(o, k + 1, Len(o))
      [] d = "again" -> Cut(o, 1, k) \o Cut(o, k, Len(o))
      [] OTHER -> [o EXCEPT ![k] = (@ + (CASE d = "low" -> 1 [] d = "nibble" -> 16 [] d = "high" -> 128)) % 256]
Upper(text) == [i \in 1..Len(text) |-> IF text[i] > 96 THEN text[i] - 32 ELSE text[i]]
Result(os, s) ==
    [pdus |-> [i \in 1..Len(os) |->
        [pdu |-> Upper(HexOf(os[i])), cnt |-> Len(os), seq |-> i,
         length |-> Len(os[i]) - Len(Smsc(s))]]]
Judged(s, os) ==
    LET r == Result(os, s)
        ps == Parsed(r)
    IN IF ~AllParse(ps) THEN {"well-formed"}
       ELSE FieldClauses(s, r, ps) \cup VpClauses(s, ps) \cup TextClauses(s, ps) \cup RefClauses(s, ps)

Init == /\ st \in Encoded /\ part = 0 /\ at = 0 /\ how = "none"
Next == /\ part = 0
        /\ LET os == Reference(st)
           IN \E i \in 1..Len(os) : \E k \in 1..Len(os[i]) : \E d \in DELTAS :
                part' = i /\ at' = k /\ how' = d
        /\ UNCHANGED st
Spec == Init /\ [][Next]_<<st, part, at, how>>

Now == LET os == Reference(st)
       IN IF part = 0 THEN os ELSE [os EXCEPT ![part] = Change(os[part], at, how)]
Satisfied == part = 0 => Judged(st, Now) = {}
(* a change that gives the same octets is none *)
Determined == part > 0 => (Now = Reference(st) \/ Judged(st, Now) # {})
=============================================================================
