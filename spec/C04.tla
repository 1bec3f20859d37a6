-------------------------------- MODULE C04 --------------------------------
(* Histories of several message objects (slots 1..3), interleaved: every    *)
(* clause of an encoding holds in the state its own history leads to.       *)
EXTENDS SubmitTrace
VARIABLES l, st

All(s, r, ps) == FieldClauses(s, r, ps) \cup TextClauses(s, ps)
                 \cup VpClauses(s, ps) \cup RefClauses(s, ps)
Judge(s, e, ps) ==
    CASE e.op = "enc" -> OutcomeClauses(s, e, ps) \cup OfPdus(s, e, ps, All)
      [] e.op = "bad" -> Chk("unchanged", e.after = e.before)
      [] OTHER        -> Chk("accepted", e.r.ok)

Slots == 1..3
Init == l = 1 /\ st = [i \in Slots |-> NoSession]
Next == /\ l <= Len(Trace)
        /\ LET e  == Trace[l]
               ps == PdusOf(e)
           IN /\ Report(l, Judge(st[e.slot], e, ps))
              /\ st' = [st EXCEPT ![e.slot] = After(@, e, ps)]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
