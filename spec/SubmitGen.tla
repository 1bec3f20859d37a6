------------------------------ MODULE SubmitGen ------------------------------
(* Behaviours of SubmitMachine, printed as sequences of operations for the  *)
(* driver to step the real object through.                                  *)
EXTENDS SubmitMachine, Json, IOUtils
VARIABLE h
DEPTH == atoi(IOEnv.DEPTH)
Op(x) == LET f == CHOOSE f \in DOMAIN x : TRUE IN <<"set", f, x[f]>>
GInit == Init /\ h = <<>>
GNext == /\ Len(h) < DEPTH
         /\ \/ \E x \in Settings : Assign(x) /\ h' = Append(h, Op(x))
            \/ \E f \in {"number", "csca", "klass", "val"} : Refuse(f) /\ h' = Append(h, <<"bad", f, 0>>)
            \/ Encode /\ h' = Append(h, <<"enc", "", 0>>)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
=============================================================================
