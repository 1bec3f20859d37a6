-------------------------------- MODULE C18 --------------------------------
EXTENDS MmsMessage
VARIABLES l, s
Judge(st, e) == Clauses(st, e, {"body"})

Init == l = 1 /\ s = NoWorld
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(s, e))
              /\ s' = After(s, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
