----------------------------- MODULE SubmitTrace -----------------------------
(* Steps of a trace of a SUBMIT message object: "new", "set" (a valid       *)
(* setting), "bad" (an invalid one) and "enc".                              *)
EXTENDS Obs, Submit

NoSession == New(<<>>, <<>>)
(* automatic references start again when they are set by hand *)
Put(s, f, v) ==
    CASE f = "number"   -> [s EXCEPT !.number = v]
      [] f = "csca"     -> [s EXCEPT !.csca = v]
      [] f = "text"     -> [s EXCEPT !.text = v]
      [] f = "fmt"      -> [s EXCEPT !.fmt = v]
      [] f = "klass"    -> [s EXCEPT !.klass = v]
      [] f = "srr"      -> [s EXCEPT !.srr = v]
      [] f = "pid"      -> [s EXCEPT !.pid = v]
      [] f = "validity" -> [s EXCEPT !.validity = v]
      [] f = "ref"      -> [s EXCEPT !.ref = v, !.mr = -1]
      [] f = "rand"     -> [s EXCEPT !.rand = v]

PdusOf(e) == IF e.op = "enc" THEN (IF e.r.ok THEN Parsed(e.r) ELSE <<>>) ELSE <<>>
After(s, e, ps) ==
    CASE e.op = "new" -> New(e.number, e.text)
      [] e.op = "set" -> Put(s, e.f, e.v)
      [] e.op = "enc" -> AfterEncode(s, ps)
      [] OTHER        -> s

(* an encoding happens exactly when it must *)
OutcomeClauses(s, e, ps) ==
    LET o == Outcome(s)
    IN IF o = "either" THEN {}
       ELSE IF o = "encode"
       THEN IF e.r.ok THEN Chk("well-formed", AllParse(ps)) ELSE {"refused"}
       ELSE Chk("not-refused", FailsWith(e.r, "ValueError"))
(* clauses over the PDUs, where there are any to look at *)
OfPdus(s, e, ps, C(_, _, _)) ==
    IF e.op = "enc" /\ e.r.ok /\ Outcome(s) # "refuse" /\ AllParse(ps) THEN C(s, e.r, ps) ELSE {}
=============================================================================
