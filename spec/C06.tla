-------------------------------- MODULE C06 --------------------------------
(* Refusals of the setters and of the encoder.                             *)
EXTENDS SubmitTrace
VARIABLES l, st

All(s, r, ps) == FieldClauses(s, r, ps) \cup TextClauses(s, ps) \cup VpClauses(s, ps)
Judge(s, e, ps) ==
    CASE e.op = "enc" -> OutcomeClauses(s, e, ps) \cup OfPdus(s, e, ps, All)
      [] e.op = "new" -> Chk("constructor", e.r.ok = IsNumber(e.number)) \cup
                         (IF e.r.ok THEN {} ELSE Chk("constructor-refusal", FailsWith(e.r, "ValueError")))
      [] e.op = "set" -> Chk("accepted", e.r.ok) \cup Chk("read-back", e.after = e.want)
      [] e.op = "bad" -> Chk("refused", FailsWith(e.r, "ValueError") \/ FailsWith(e.r, "TypeError"))
                         \cup Chk("unchanged", e.after = e.before)

Init == l = 1 /\ st = NoSession
Next == /\ l <= Len(Trace)
        /\ LET e  == Trace[l]
               ps == PdusOf(e)
           IN Report(l, Judge(st, e, ps)) /\ st' = After(st, e, ps)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
