-------------------------------- MODULE C10 --------------------------------
(* User data headers.                                                      *)
EXTENDS Deliver
VARIABLE l

Judge(e) ==
    IF ~IesWellFormed(e.octets) THEN {"driver-not-well-formed"}
    ELSE IF ~e.r.ok THEN {"refused"}
    ELSE UdhClauses(Ies(e.octets), e.r.v)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
