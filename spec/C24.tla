-------------------------------- MODULE C24 --------------------------------
(* Sessions of decoding attempts on one iterator.  The state is the octets  *)
(* not yet delivered, or the fact that nothing is promised about them any   *)
(* longer.  A careful decoder that refuses changes nothing, neither what    *)
(* next nor what preview delivers; a decoder that understands takes what    *)
(* its grammar says.                                                       *)
EXTENDS Decoders
VARIABLES l, st
Known(o) == [known |-> TRUE, rem |-> o]
Lost == [known |-> FALSE, rem |-> <<>>]
Refused(e) == FailsWith(e.r, "DecodeError")
After(s, e) ==
    LET p == ByName(e.f, s.rem, 1)
    IN CASE e.op = "new" -> Known(e.s)
         [] e.op = "take" -> (IF s.known THEN Known(Sub(s.rem, 2, Len(s.rem))) ELSE Lost)
         [] e.op = "try" -> (IF ~s.known THEN Lost
                             ELSE IF ~e.r.ok THEN (IF Refused(e) /\ e.f \in Careful THEN s ELSE Lost)
                             ELSE IF Is(p, "ok") THEN Known(Sub(s.rem, p.n, Len(s.rem)))
                             ELSE Lost)
         [] e.op \in {"drain", "whole"} -> Lost
         [] OTHER -> s
Judge(s, e) ==
    LET p == ByName(e.f, s.rem, 1)
    IN CASE e.op = "try" -> (IF ~s.known THEN {} ELSE IF ~Is(p, "ok") THEN {}
                             ELSE Chk("sees-what-is-left", Meets(e.f, e.r, p)))
         [] e.op = "look" -> Chk("preview-untouched", s.known => e.seen = s.rem)
         [] e.op = "take" -> Chk("next-octet", s.known => (IF s.rem = <<>> THEN FailsWith(e.r, "StopIteration")
                                                         ELSE Gives(e.r, Int_(s.rem[1]))))
         [] e.op = "drain" -> Chk("octets-untouched", s.known => e.rest = s.rem)
         [] OTHER -> {}
Init == l = 1 /\ st = Lost
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN Report(l, Judge(st, e)) /\ st' = After(st, e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
