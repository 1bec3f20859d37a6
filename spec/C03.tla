-------------------------------- MODULE C03 --------------------------------
(* Text to user data.                                                      *)
EXTENDS SubmitTrace
VARIABLES l, st

Text(s, r, ps) == TextClauses(s, ps)
Judge(s, e, ps) ==
    CASE e.op = "enc" -> OutcomeClauses(s, e, ps) \cup OfPdus(s, e, ps, Text)
      [] e.op = "bad" -> {}
      [] OTHER        -> Chk("accepted", e.r.ok)

Init == l = 1 /\ st = NoSession
Next == /\ l <= Len(Trace)
        /\ LET e  == Trace[l]
               ps == PdusOf(e)
           IN Report(l, Judge(st, e, ps)) /\ st' = After(st, e, ps)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
