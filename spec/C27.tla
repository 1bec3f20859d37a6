-------------------------------- MODULE C27 --------------------------------
(***************************************************************************)
(* Users whose calls overlap.  A step of the trace is a call of one user,  *)
(* explained by that user's own specification and the state its own calls  *)
(* left: no other user's calls, and no dropped call, are part of it.       *)
(* The schedules come from module Overlap.                                 *)
(***************************************************************************)
EXTENDS Obs
VARIABLES l, st
Users == 1..3
Codec == INSTANCE C01
Subm  == INSTANCE C02
SubmT == INSTANCE C03
SubmH == INSTANCE C04
Times_ == INSTANCE C05
Refs_ == INSTANCE C06
Heads == INSTANCE C07
Texts == INSTANCE C08
Reps  == INSTANCE C09
Udhs  == INSTANCE C10
Hist  == INSTANCE C12
Septs == INSTANCE C13
Prev  == INSTANCE C14
Prims == INSTANCE C15
Types == INSTANCE C16
Hdrs  == INSTANCE C17 WITH s <- st
Parts == INSTANCE C18 WITH s <- st
Kept(a, b, c) == INSTANCE C19 WITH s <- a, memo <- b, disk <- c
Smil  == INSTANCE C20 WITH s <- st
Pages == INSTANCE C21 WITH s <- st
Push  == INSTANCE C22
Rx    == INSTANCE C23
Refus == INSTANCE C24

None_ == [k |-> "none"]
Fresh(of) ==
    CASE of \in {"C02", "C03", "C05", "C06"} -> SubmT!NoSession
      [] of \in {"C17", "C18", "C20", "C21"} -> Hdrs!NoWorld
      [] of = "C19" -> <<Hdrs!NoWorld, {}, [f \in 1..2 |-> None_]>>
      [] of = "C04" -> [i \in SubmH!Slots |-> SubmH!NoSession]
      [] of = "C14" -> [i \in 1..2 |-> Prev!Fresh(<<>>)]
      [] of = "C24" -> Refus!Lost
      [] of = "C12" -> Hist!Fresh
      [] OTHER -> None_
After(of, s, e) ==
    CASE of \in {"C02", "C03", "C05", "C06"} -> SubmT!After(s, e, SubmT!PdusOf(e))
      [] of \in {"C17", "C18", "C20", "C21"} -> Hdrs!After(s, e)
      [] of = "C19" -> LET a == s[1]
                           b == s[2]
                           c == s[3]
                       IN Kept(a, b, c)!Following(e)
      [] of = "C04" -> [s EXCEPT ![e.slot] = SubmH!After(@, e, SubmH!PdusOf(e))]
      [] of = "C14" -> [s EXCEPT ![e.slot] = Prev!After(@, e)]
      [] of = "C24" -> Refus!After(s, e)
      [] of = "C12" -> Hist!After(s, e)
      [] OTHER -> None_
Explained(of, s, e) ==
    CASE of = "C01" -> Codec!Judge(e)
      [] of = "C02" -> Subm!Judge(s, e, SubmT!PdusOf(e))
      [] of = "C03" -> SubmT!Judge(s, e, SubmT!PdusOf(e))
      [] of = "C04" -> SubmH!Judge(s[e.slot], e, SubmH!PdusOf(e))
      [] of = "C05" -> Times_!Judge(s, e, SubmT!PdusOf(e))
      [] of = "C06" -> Refs_!Judge(s, e, SubmT!PdusOf(e))
      [] of = "C07" -> Heads!Judge(e)
      [] of = "C08" -> Texts!Judge(e)
      [] of = "C09" -> Reps!Judge(e)
      [] of = "C10" -> Udhs!Judge(e)
      [] of = "C12" -> Hist!Judge(s, e)
      [] of = "C13" -> Septs!Judge(e)
      [] of = "C14" -> Prev!Judge(s[e.slot], e)
      [] of = "C15" -> Prims!Judge(e)
      [] of = "C16" -> Types!Judge(e)
      [] of = "C17" -> Hdrs!Judge(s, e)
      [] of = "C18" -> Parts!Judge(s, e)
      [] of = "C19" -> LET a == s[1]
                           b == s[2]
                           c == s[3]
                       IN Kept(a, b, c)!Judge(a, e)
      [] of = "C20" -> Smil!Judge(s, e)
      [] of = "C21" -> Pages!Judge(s, e)
      [] of = "C22" -> Push!Judge(e)
      [] of = "C23" -> Rx!Judge(e)
      [] of = "C24" -> Refus!Judge(s, e)
(* a call that is dropped may have drawn a reference *)
Dropped(of, s, e) ==
    IF e.what # "to_pdu" THEN s
    ELSE CASE of \in {"C02", "C03", "C05", "C06"} -> SubmT!AfterEncode(s, <<>>)
           [] of = "C19" -> <<Hdrs!NoWorld, {}, [f \in 1..2 |-> None_]>>
      [] of = "C04" -> [i \in SubmH!Slots |-> SubmH!AfterEncode(s[i], <<>>)]
           [] OTHER -> s
Judge(s, e) ==
    CASE e.op \in {"user", "drop"} -> {}
      [] OTHER -> Explained(e.of, s, e.e)
Init == l = 1 /\ st = [p \in Users |-> None_]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(st[e.by], e))
              /\ st' = [st EXCEPT ![e.by] = CASE e.op = "user" -> Fresh(e.of)
                                              [] e.op = "drop" -> Dropped(e.of, @, e)
                                              [] OTHER -> After(e.of, @, e.e)]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
