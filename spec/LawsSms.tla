------------------------------- MODULE LawsSms --------------------------------
(***************************************************************************)
(* What the functions of the specification must satisfy for the properties *)
(* to mean what they say: that what an encoder of the specification        *)
(* builds, its parser reads back; that a code is read one way only; that   *)
(* the relations the trace specifications demand of an implementation      *)
(* (a good split, a greatest period) determine what it may do.             *)
(* Each law is an invariant over a state that holds one argument; SUITES   *)
(* selects the families of arguments, TLC enumerates them.                 *)
(***************************************************************************)
EXTENDS Submit
(* clipped to the sequence *)
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)
CONSTANTS SUITES, MAXUNITS
VARIABLES suite, x
Seqs(S, n) == [1..n -> S]
UpTo(S, n) == UNION { Seqs(S, k) : k \in 0..n }

(* ---- arguments -------------------------------------------------------------- *)
Edge7 == {0, 1, 27, 64, 127}
Edge8 == {0, 1, 15, 127, 128, 255}
SeptetArgs == UpTo(Codes, 2) \cup Seqs(Edge7, 6)
              \cup UNION { { [i \in 1..n |-> IF i = n THEN a ELSE IF i = 1 THEN b ELSE c] :
                             a \in Edge7, b \in Edge7, c \in Edge7 } : n \in 7..17 }
              \cup { [i \in 1..n |-> (i * a) % 128] : n \in {152, 153, 160, 255}, a \in {1, 5, 127} }
OctetArgs == UpTo(0..255, 1) \cup UpTo(Edge8, 5) \cup { <<a, b>> : a \in 0..255, b \in Edge8 }
DigitArgs == UpTo(0..9, 4)
TextArgs == UpTo(Chars, 1) \cup Seqs(Chars, 2)
            \cup Seqs({64, 97, 8364, 12, 224, 916}, 5)
CodeArgs == UpTo(Codes, 2) \cup Seqs({0, 27, 20, 101, 127}, 5)
(* unit sequences with escapes where a part of CAPX units might end *)
CAPX == 5
UnitArgs == UNION { Seqs({1, 27}, k) : k \in 1..MAXUNITS }
SecondArgs == { 300 * k + d : k \in 1..288, d \in {-1, 0, 1} }
              \cup { 1800 * k + d : k \in 24..48, d \in {-1, 0, 1} }
              \cup { 86400 * k + d : k \in 1..31, d \in {-1, 0, 1, 43200} }
              \cup { 604800 * k + d : k \in 1..64, d \in {-1, 0, 1, 302400} }
DayArgs == -366..49675                  \* 1968-12-31 .. 2106-01-03
ZoneArgs == { 15 * k : k \in -79..79 }
HexArgs == UpTo(0..255, 1) \cup UpTo(Edge8, 4)

Args == CASE suite = "septets" -> SeptetArgs
          [] suite = "octets" -> OctetArgs \cup HexArgs
          [] suite = "digits" -> DigitArgs
          [] suite = "text" -> TextArgs
          [] suite = "codes" -> CodeArgs
          [] suite = "units" -> UnitArgs
          [] suite = "seconds" -> SecondArgs
          [] suite = "days" -> DayArgs
          [] suite = "zones" -> ZoneArgs
Init == suite \in SUITES /\ x \in Args
Spec == Init /\ [][FALSE]_<<suite, x>>

(* ---- laws ---------------------------------------------------------------------- *)
(* packed septets are read back, use the fewest octets and leave zeros *)
LawSeptets ==
    LET o == PackSeptets(x)
    IN /\ Len(o) = PackLen(Len(x))
       /\ 8 * Len(o) - 7 * Len(x) \in 0..7
       /\ \A i \in 1..Len(o) : o[i] \in 0..255
       /\ Septets(o, 0, Len(x)) = x
       /\ TailZero(o, Len(x))
       /\ \A k \in 0..Len(x) : Septets(o, k, Len(x) - k) = Cut(x, k + 1, Len(x))
       (* after a header of any length the septets start on their boundary *)
       /\ \A h \in 1..8 :
             LET skip == (8 * h + 6) \div 7
                 all  == PackSeptets([i \in 1..skip |-> 0] \o x)
             IN Septets(all, skip, Len(x)) = x /\ (8 * h) <= (7 * skip) /\ 7 * skip - 8 * h < 7
LawOctets ==
    LET t == HexOf(x)
    IN /\ IsHex(t) /\ FromHex(t) = x
       /\ PackNibbles(Nibbles(x)) = x
       /\ Len(Nibbles(x)) = 2 * Len(x)
       /\ (Len(x) % 2 = 0 => FromUcs2(Ucs2(x)) = x)
LawDigits ==
    LET o == PackNibbles(x)
    IN /\ Len(o) = (Len(x) + 1) \div 2
       /\ Cut(Nibbles(o), 1, Len(x)) = x
       /\ (Len(x) % 2 = 1 => Nibbles(o)[Len(x) + 1] = 15)
(* encodable texts survive, whatever the policy; codes are canonical *)
LawText ==
    /\ Encodable(x)
    /\ \A p \in {"strict", "ignore", "replace"} :
          LET e == Encode(x, p)
              d == Decode(e, p)
          IN /\ d.txt = x /\ ~d.bad
             /\ \A i \in 1..Len(e) : e[i] \in Codes
             /\ Len(e) \in Len(x)..(2 * Len(x))
LawCodes ==
    LET d == Decode(x, "strict")
        e == Encode(d.txt, "ignore")
    IN /\ ~d.bad
       /\ NBSP \notin { d.txt[i] : i \in 1..Len(d.txt) } => e = x
Min2(a, b) == IF a < b THEN a ELSE b
(* a good split of septets is the greedy one: exactly one is accepted *)
RECURSIVE Splits(_, _)
Splits(n, cap) == IF n = 0 THEN { <<>> }
                  ELSE UNION { { <<k>> \o s : s \in Splits(n - k, cap) } : k \in 1..Min2(n, cap) }
SizesOf(ends) == [i \in 1..Len(ends) |-> IF i = 1 THEN ends[1] ELSE ends[i] - ends[i - 1]]
LawUnits ==
    LET WellFormed == \A i \in 1..Len(x) : x[i] = ESC => i < Len(x) /\ x[i + 1] # ESC
        Good(s) == LET at == FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + k), <<0>>, s)
                       Full(i) == \/ s[i] = CAPX /\ x[at[i + 1]] # ESC
                                  \/ s[i] = CAPX - 1 /\ x[at[i + 1] + 1] = ESC
                   IN \A i \in 1..(Len(s) - 1) : Full(i)
        g == { s \in Splits(Len(x), CAPX) : Good(s) }
        e == SizesOf(Ends(x, 1, CAPX))
    IN WellFormed =>
         /\ g = { e }
         (* no part ends inside an escape sequence, and no split that respects *)
         (* the escape sequences has fewer parts                               *)
         /\ \A s \in Splits(Len(x), CAPX) :
               (LET at == FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + k), <<0>>, s)
                IN \A i \in 1..(Len(s) - 1) : x[at[i + 1]] # ESC) => Len(s) >= Len(e)
(* the greatest period not above a time is unique, and exists in the range *)
LawSeconds ==
    LET f == { v \in 0..255 : IsFloor(v, x) }
    IN /\ InRange(x, 0) <=> (x >= MinPeriod /\ x <= MaxPeriod)
       /\ InRange(x, 0) => Cardinality(f) = 1
       /\ \A v \in f : \A w \in 0..255 : Period[w] <= x => Period[w] <= Period[v]
       /\ \A v \in 0..254 : Period[v] < Period[v + 1]
LawDays ==
    LET c == Civil(x)
        n == Civil(x + 1)
    IN /\ ValidDate(<<c[1], c[2], c[3], 0, 0, 0>>)
       /\ DaysTo(c[1], c[2], c[3]) = x
       /\ n = IF c[3] < MonthDays(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
              ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
       /\ \A m \in {-1439, -840, -1, 0, 1, 720, 1439} :
             LET d == <<c[1], c[2], c[3], 11, 59, 7>>
             IN ShiftMinutes(ShiftMinutes(d, m), -m) = d
       /\ \A y \in {c[1]} : (y \in 1969..2068) => FullYear(y % 100) = y
       /\ \A i \in 1..2 : BcdOk(Bcd(c[i + 1])) /\ UnBcd(Bcd(c[i + 1])) = c[i + 1]
LawZones ==
    /\ ZoneMinutes(ZoneOctet(x)) = x
    /\ ZoneOctet(x) \in 0..255
    /\ \A y \in ZoneArgs : y # x => ZoneOctet(y) # ZoneOctet(x)
Law == CASE suite = "septets" -> LawSeptets
         [] suite = "octets" -> LawOctets
         [] suite = "digits" -> LawDigits
         [] suite = "text" -> LawText
         [] suite = "codes" -> LawCodes
         [] suite = "units" -> LawUnits
         [] suite = "seconds" -> LawSeconds
         [] suite = "days" -> LawDays
         [] suite = "zones" -> LawZones
=============================================================================
