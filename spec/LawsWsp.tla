------------------------------- MODULE LawsWsp --------------------------------
(***************************************************************************)
(* What the functions of the specification must satisfy for the properties *)
(* to mean what they say: that what an encoder of the specification        *)
(* builds, its parser reads back; that a code is read one way only; that   *)
(* the relations the trace specifications demand of an implementation      *)
(* (a good split, a greatest period) determine what it may do.             *)
(* Each law is an invariant over a state that holds one argument; SUITES   *)
(* selects the families of arguments, TLC enumerates them.                 *)
(***************************************************************************)
EXTENDS Wsp
CONSTANT SUITES
VARIABLES suite, x
Seqs(S, n) == [1..n -> S]
UpTo(S, n) == UNION { Seqs(S, k) : k \in 0..n }

(* ---- arguments -------------------------------------------------------------- *)
Edge8 == {0, 1, 15, 127, 128, 255}
NumberArgs == UpTo(0..255, 1) \cup Seqs(Edge8, 2) \cup Seqs(Edge8, 3) \cup Seqs(Edge8, 4)
              \cup { <<a>> \o [i \in 1..n |-> b] : n \in {4, 8, 15, 29}, a \in Edge8, b \in Edge8 }
LengthArgs == (0..300) \cup {16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 16777215}
StringArgs == UpTo({9, 10, 32, 34, 45, 65, 126, 128, 160, 255}, 3) \cup { <<c>> : c \in 1..255 }
VersionArgs == { <<48 + a>> : a \in 0..9 }
               \cup { <<48 + a, 46, 48 + b>> : a \in 0..9, b \in 0..9 }
               \cup { <<48 + a, 46, 49, 48 + b>> : a \in 0..9, b \in 0..9 }
               \cup { <<48 + a, 46>> : a \in 0..9 } \cup { <<46>>, <<>>, <<49, 50>>, <<49, 46, 48, 48>> }
Args == CASE suite = "numbers" -> NumberArgs
          [] suite = "lengths" -> LengthArgs
          [] suite = "strings" -> StringArgs
          [] suite = "versions" -> VersionArgs
Init == suite \in SUITES /\ x \in Args
Spec == Init /\ [][FALSE]_<<suite, x>>

(* ---- laws ---------------------------------------------------------------------- *)
LawNumbers ==
    LET n == Strip(x)
        u == UintvarOf(n)
        l == LongOf(n)
        i == IntegerOf(n)
    IN /\ OfDigits(Digits(n)) = n
       /\ \A k \in 1..Len(u) : (u[k] >= 128) = (k < Len(u))
       /\ (Len(u) > 1 => u[1] # 128)
       /\ (Len(u) <= 5 => LET p == Uintvar(u \o <<7>>, 1)
                          IN Is(p, "ok") /\ p.v = Num(n) /\ p.n = Len(u) + 1)
       /\ LET p == Long(l \o <<7>>, 1) IN Is(p, "ok") /\ p.v = Num(n) /\ p.n = Len(l) + 1
       /\ LET p == Integer(<<9>> \o i \o <<7>>, 2)
          IN Is(p, "ok") /\ p.v = Num(n) /\ p.n = Len(i) + 2
       (* what is cut short is found cut short, never another number *)
       /\ \A k \in 0..(Len(i) - 1) : Is(Integer(Sub(i, 1, k), 1), "end")
       /\ \A k \in 0..(Len(u) - 1) : Is(Uintvar(Sub(u, 1, k), 1), "end")
LawLengths ==
    LET o == ValueLengthOf(x)
        p == ValueLength(o \o <<1>>, 1)
    IN /\ Is(p, "ok") /\ Small(p.v.n) = x /\ p.n = Len(o) + 1
       /\ Small(OctetsOf(x)) = x
       /\ \A k \in 0..(Len(o) - 1) : Is(ValueLength(Sub(o, 1, k), 1), "end")
LawStrings ==
    LET o == TextOf(x)
        p == TextString(o \o <<7>>, 1)
    IN IF IsText(x) THEN /\ Is(p, "ok") /\ p.v = Str(x) /\ p.n = Len(o) + 1
                         /\ \A k \in 0..(Len(o) - 1) : Is(TextString(Sub(o, 1, k), 1), "end")
       ELSE Is(p, "any") \/ (Is(p, "ok") /\ p.v = Str(x))
LawVersions ==
    LET o == VersionOf(x)
        p == Version(o \o <<7>>, 1)
    IN /\ Is(p, "ok") /\ p.v = Str(x) /\ p.n = Len(o) + 1
Law == CASE suite = "numbers" -> LawNumbers
         [] suite = "lengths" -> LawLengths
         [] suite = "strings" -> LawStrings
         [] suite = "versions" -> LawVersions
=============================================================================
