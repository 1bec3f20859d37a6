-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* How observations of the implementation look in a trace, and the helpers *)
(* the trace specifications share.                                         *)
(*                                                                         *)
(* A trace is a file with one JSON event per line.  Every value the code   *)
(* returned, and every attribute read from it, is projected to a tagged    *)
(* record whose other field has a name of its own per kind, so that        *)
(* comparing it to any expected value is always defined:                   *)
(*   None [k |-> "none"], integers [k |-> "i", v |-> n], booleans "b",     *)
(*   strings [k |-> "s", c |-> code points], dates "d" (year .. microsec), *)
(*   tuples "t" and lists "l" (sequences of values), dictionaries "m"      *)
(*   (sequences of <<key, value>>), floats "f" (millionths), big integers  *)
(*   "I" (octets, most significant first), arrays "a", anything else "o".  *)
(* The result of a call is [ok |-> TRUE, v |-> value] or                   *)
(* [ok |-> FALSE, exc |-> class names along the inheritance chain].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

None    == [k |-> "none"]
Int_(n) == [k |-> "i", v |-> n]
Bool(b) == [k |-> "b", b |-> b]
Str(c)  == [k |-> "s", c |-> c]
Date(d) == [k |-> "d", d |-> d]
Tup(s)  == [k |-> "t", t |-> s]
Lst(s)  == [k |-> "l", l |-> s]
Fails(r)       == ~r.ok
FailsWith(r, x) == IF r.ok THEN FALSE ELSE \E i \in 1..Len(r.exc) : r.exc[i] = x
Gives(r, v)    == IF r.ok THEN r.v = v ELSE FALSE

(* a clause: the empty set when it holds, its name when it does not *)
Chk(name, holds) == IF holds THEN {} ELSE {name}
Arr(s)  == [k |-> "a", a |-> s]
Has(r, f) == f \in DOMAIN r

Last_(s) == s[Len(s)]
RECURSIVE Rep(_, _)
Rep(x, n) == [i \in 1..n |-> x]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* a part of a sequence, clipped *)
Sub(s, a, b) == LET c == Min2(b, Len(s)) IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)
CeilDiv(a, b) == (a + b - 1) \div b

Pow2 == [i \in 0..30 |-> 2^i]
Bit(n, i) == (n \div Pow2[i]) % 2

Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(l, f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
=============================================================================
