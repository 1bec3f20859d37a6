-------------------------------- MODULE C14 --------------------------------
(* Histories of two iterators, interleaved.                                *)
EXTENDS Obs, Preview
VARIABLES l, st

Item(r, stops, v) == IF stops THEN FailsWith(r, "StopIteration") ELSE Gives(r, v)
Judge(s, e) ==
    CASE e.op = "new"     -> Chk("new", e.r.ok)
      [] e.op = "next"    -> Chk("next", IF AtEnd(s) THEN FailsWith(e.r, "StopIteration")
                                         ELSE Gives(e.r, NextItem(s)))
      [] e.op = "preview" -> Chk("preview", IF LookEnd(s) THEN FailsWith(e.r, "StopIteration")
                                            ELSE Gives(e.r, LookItem(s)))
      [] e.op = "reset"   -> Chk("reset", e.r.ok)
      [] e.op = "iter"    -> Chk("iter", Gives(e.r, Bool(TRUE)))
      [] e.op = "drain"   -> Chk("drain", Gives(e.r, Lst(s.rest)))
After(s, e) ==
    CASE e.op = "new"     -> Fresh(e.items)
      [] e.op = "next"    -> AfterNext(s)
      [] e.op = "preview" -> AfterLook(s)
      [] e.op = "reset"   -> AfterReset(s)
      [] e.op = "drain"   -> Fresh(<<>>)
      [] OTHER            -> s

Init == l = 1 /\ st = [i \in 1..2 |-> Fresh(<<>>)]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(st[e.slot], e))
              /\ st' = [st EXCEPT ![e.slot] = After(@, e)]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
