-------------------------------- MODULE C23 --------------------------------
(* PDUs of other encoders: the message the library shows is the one that    *)
(* the parsers of module Mms find in the octets.                           *)
EXTENDS Mms
VARIABLE l
Judge(e) ==
    LET p == Message(e.s)
    IN IF ~Is(p, "ok") THEN Chk("the-builder-and-the-parser-disagree", ~e.legal)
       ELSE IF ~Once(p.v.hdrs) THEN {}
       ELSE MessageShows(e.r, p.v)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
