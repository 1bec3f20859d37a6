-------------------------------- MODULE C02 --------------------------------
(* Settings to PDU fields.                                                 *)
EXTENDS SubmitTrace
VARIABLES l, st

Judge(s, e, ps) ==
    CASE e.op = "enc" -> (IF Outcome(s) = "encode" THEN OutcomeClauses(s, e, ps) ELSE {})
                         \cup OfPdus(s, e, ps, FieldClauses)
      [] e.op = "bad" -> {}
      [] OTHER        -> Chk("accepted", e.r.ok)

Init == l = 1 /\ st = NoSession
Next == /\ l <= Len(Trace)
        /\ LET e  == Trace[l]
               ps == PdusOf(e)
           IN Report(l, Judge(st, e, ps)) /\ st' = After(st, e, ps)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
