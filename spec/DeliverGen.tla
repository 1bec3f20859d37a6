----------------------------- MODULE DeliverGen -----------------------------
(***************************************************************************)
(* The received message object as a state machine over the kinds of PDU    *)
(* assigned to it: which groups of fields an assignment writes, and which  *)
(* it has to forget.  Invariant: what is reported comes from the last PDU. *)
(* Its behaviours are stepped through the real object (C12).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Good == {"plain", "concat", "ports", "no-smsc", "report", "short-report"}
Bad  == {"odd", "nothex", "submit", "cut", "bad-date"}
Groups == {"csca", "sender", "pid", "text", "udh", "sr", "date"}
(* what a PDU of a kind has something to say about *)
Says(k) == CASE k = "plain"  -> {"csca", "sender", "pid", "text", "date"}
             [] k = "no-smsc" -> {"sender", "pid", "text", "date"}
             [] k \in {"concat", "ports"} -> {"csca", "sender", "pid", "text", "udh", "date"}
             [] OTHER        -> {"csca", "sender", "text", "udh", "sr", "date"}
VARIABLES from,   \* group -> index of the PDU its value comes from, 0 none
          last,   \* index of the last PDU assigned, and whether it was accepted
          h
vars == <<from, last, h>>
DEPTH == atoi(IOEnv.DEPTH)
Init == from = [g \in Groups |-> 0] /\ last = [i |-> 0, ok |-> FALSE] /\ h = <<>>
Assign(k) ==
    /\ Len(h) < DEPTH
    /\ h' = Append(h, k)
    /\ last' = [i |-> Len(h) + 1, ok |-> k \in Good]
    /\ IF k \in Good
       THEN from' = [g \in Groups |-> IF g \in Says(k) THEN Len(h) + 1 ELSE 0]
       ELSE from' \in { [g \in Groups |-> IF g \in S THEN Len(h) + 1 ELSE 0] : S \in {{}, {"csca"}} }
            \* a refused PDU may have been read in part
Next == \E k \in Good \cup Bad : Assign(k)
Spec == Init /\ [][Next]_vars
OnlyTheLast == last.ok => \A g \in Groups : from[g] \in {0, last.i}
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
=============================================================================
