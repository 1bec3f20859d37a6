-------------------------------- MODULE C08 --------------------------------
(* Text of received messages.                                              *)
EXTENDS Deliver
VARIABLE l

Judge(e) ==
    IF Kind(e.pdu, TRUE) # "deliver" THEN {"driver-not-well-formed"}
    ELSE IF ~e.r.ok THEN {"refused"}
    ELSE LET p == ParseDeliver(OctetsOf(e.pdu))
         IN TextClausesD(p, e.r.v) \cup DeliverUdhClauses(p, e.r.v)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
