-------------------------------- MODULE C07 --------------------------------
(* Header fields of received messages.                                     *)
EXTENDS Deliver
VARIABLE l

Judge(e) ==
    IF Kind(e.pdu, TRUE) # "deliver" THEN {"driver-not-well-formed"}
    ELSE IF ~e.r.ok THEN {"refused"}
    ELSE HeaderClauses(ParseDeliver(OctetsOf(e.pdu)), e.r.v)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
