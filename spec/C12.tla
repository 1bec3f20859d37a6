-------------------------------- MODULE C12 --------------------------------
(* Histories of assignments, and malformed PDUs.                           *)
EXTENDS Deliver
VARIABLES l, st        \* the last outcome of each object in use

(* e.r: the object assigned to; e.fresh: a new object *)
Whole(pdu, r) ==
    LET o == OctetsOf(pdu)
    IN IF ~r.ok THEN {"refused"}
       ELSE IF Mti(o[ParseSmsc(o).next]) = 2 THEN ReportClauses(ParseReport(o), r.v)
       ELSE LET p == ParseDeliver(o)
            IN HeaderClauses(p, r.v) \cup TextClausesD(p, r.v) \cup DeliverUdhClauses(p, r.v)
Alone(e, r) ==
    LET k == Kind(e.pdu, e.strict)
    IN CASE k = "odd"     -> Chk("odd-length", FailsWith(r, "ValueError"))
         [] k = "not-hex" -> Chk("not-hexadecimal", Fails(r))
         [] k = "cut"     -> Chk("truncated", Fails(r))
         [] k = "submit"  -> Chk("submit-type", FailsWith(r, "ValueError"))
         [] k = "free"    -> {}
         [] OTHER         -> Whole(e.pdu, r)
(* the exception of a reused object need not be the same, but there is one *)
Same(a, b) == a.ok = b.ok /\ (a.ok => a.v = b.v)
Fresh == [i \in 0..4 |-> [ok |-> FALSE]]
After(seen, e) == IF e.op = "look" THEN seen ELSE [seen EXCEPT ![e.slot] = e.r]
Judge(seen, e) ==
    IF e.op = "look" THEN Chk("changed-by-another", seen[e.slot].ok => Same(e.r, seen[e.slot]))
    ELSE Alone(e, e.r) \cup Alone(e, e.fresh) \cup Chk("history", Same(e.r, e.fresh))
    \cup Chk("driver-kind", e.kind = "any" \/ e.kind = Kind(e.pdu, e.strict))

Init == l = 1 /\ st = Fresh
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(st, Trace[l]))
        /\ st' = After(st, Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
