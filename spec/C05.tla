-------------------------------- MODULE C05 --------------------------------
(* Validity periods, through messages and directly.                        *)
EXTENDS SubmitTrace
VARIABLES l, st

Vp(s, r, ps) == VpClauses(s, ps) \cup
    UNION { Chk("validity-format", SubmitVpf(ps[i].first) =
               (CASE s.validity.k = "none" -> 0 [] s.validity.k = "rel" -> 2 [] OTHER -> 3))
            : i \in 1..Len(ps) }
Direct(e) ==
    CASE e.op = "rel" ->
           IF ~InRange(e.s, e.us) THEN Chk("range", FailsWith(e.r, "ValueError"))
           ELSE IF ~e.r.ok THEN {"refused"}
           ELSE IF e.r.v.k = "i" THEN Chk("relative-validity", IsFloor(e.r.v.v, e.s))
           ELSE {"relative-validity"}
      [] e.op = "relblock" ->     \* whole minutes e.from.., the octets given
           Chk("relative-validity",
               \A i \in 1..Len(e.rs) :
                 LET s == (e.from + i - 1) * 60
                 IN IF InRange(s, 0) THEN IsFloor(e.rs[i], s) ELSE e.rs[i] = -1)
      [] e.op = "abs" ->
           LET v == Stamp(e.d, e.off)
           IN Chk("absolute-validity", Gives(e.r, Lst([i \in 1..7 |-> Int_(v[i])])))
      [] e.op = "zone" -> Chk("zone", Gives(e.r, Int_(e.min)))
Judge(s, e, ps) ==
    CASE e.op = "enc" -> OutcomeClauses(s, e, ps) \cup OfPdus(s, e, ps, Vp)
      [] e.op \in {"rel", "relblock", "abs", "zone"} -> Direct(e)
      [] e.op = "bad" -> {}
      [] OTHER        -> Chk("accepted", e.r.ok)

Init == l = 1 /\ st = NoSession
Next == /\ l <= Len(Trace)
        /\ LET e  == Trace[l]
               ps == PdusOf(e)
           IN Report(l, Judge(st, e, ps)) /\ st' = After(st, e, ps)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
