-------------------------------- MODULE C22 --------------------------------
(* WAP pushes: recognised by their type, unwrapped whatever their header   *)
(* block, and notifications told from other messages.                      *)
EXTENDS Wap
VARIABLE l
Recognised(e) ==
    IF e.bytes THEN Chk("recognised", e.r = [ok |-> TRUE, v |-> Bool(IsPush(e.s))])
    ELSE Chk("not-a-byte-string", FailsWith(e.r, "TypeError"))
Extracted(e) ==
    LET p == Push(e.s)
    IN IF ~IsPush(e.s) THEN Chk("not-a-push-not-refused", ~e.r.ok)
       ELSE IF ~Is(p, "ok") THEN Chk("the-builder-and-the-parser-disagree", ~e.legal)
       ELSE IF ~Once(p.v.hdrs) THEN {}
       ELSE MessageShows(e.r, p.v)
            \cup Chk("notification", e.notif = [ok |-> TRUE, v |-> Bool(IsNotification(p.v.hdrs))])
Judge(e) == IF e.op = "is" THEN Recognised(e) ELSE Extracted(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
