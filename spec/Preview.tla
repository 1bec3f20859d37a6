------------------------------- MODULE Preview -------------------------------
(***************************************************************************)
(* The previewing iterator.  Abstract state: what next still has to        *)
(* deliver, and how far preview has looked into it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh(items) == [rest |-> items, off |-> 0]
AtEnd(s)     == s.rest = <<>>
LookEnd(s)   == s.off >= Len(s.rest)
(* results and successor states; only defined where they do not stop *)
NextItem(s)  == Head(s.rest)
AfterNext(s) == IF AtEnd(s) THEN [s EXCEPT !.off = 0] ELSE [rest |-> Tail(s.rest), off |-> 0]
LookItem(s)  == s.rest[s.off + 1]
AfterLook(s) == IF LookEnd(s) THEN s ELSE [s EXCEPT !.off = @ + 1]
AfterReset(s) == [s EXCEPT !.off = 0]
=============================================================================
