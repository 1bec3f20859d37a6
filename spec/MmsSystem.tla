------------------------------ MODULE MmsSystem ------------------------------
(***************************************************************************)
(* Clients that compose, send, are notified, retrieve, acknowledge and     *)
(* forward multimedia messages, and an MMSC between them (WAP-209 1.0,     *)
(* section 6).  Messages 1 and 2 go from one client to another; message 3  *)
(* is message 1 forwarded by its recipient.  Confirmations, notifications  *)
(* and reports may be late, repeated and interleaved; a composed message   *)
(* may be changed after it was sent.                                       *)
(* Content is told by versions: a retrieval delivers the version that was  *)
(* submitted, whatever happened to the composed message since.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS COPIES       \* of each confirmation, notification, retrieval, report
DEPTH == atoi(IOEnv.DEPTH)
Msgs == 1..3
VARIABLES ver,      \* version of the composed message
          sub,      \* version submitted, 0: not yet
          fate,     \* what the MMSC decided: "none", "stored", "refused"
          conf,     \* confirmations the sender got
          note,     \* notifications the recipient got
          ans,      \* the recipient's answer: "none", "Deferred", "Rejected", "Retrieved"
          ret,      \* versions the recipient retrieved, in order
          ack,      \* acknowledgements the MMSC got
          rep,      \* delivery reports the sender got
          h
vars == <<ver, sub, fate, conf, note, ans, ret, ack, rep, h>>
Zero == [m \in Msgs |-> 0]
Init == /\ ver = [m \in Msgs |-> 1] /\ sub = Zero /\ fate = [m \in Msgs |-> "none"]
        /\ conf = Zero /\ note = Zero /\ ans = [m \in Msgs |-> "none"]
        /\ ret = [m \in Msgs |-> <<>>] /\ ack = Zero /\ rep = Zero /\ h = <<>>
Did(op, m) == h' = Append(h, <<op, m>>)
Submit(m, f) ==
    /\ sub[m] = 0 /\ (m = 3 => ret[1] # <<>>)
    /\ sub' = [sub EXCEPT ![m] = ver[m]] /\ fate' = [fate EXCEPT ![m] = f]
    /\ Did(IF f = "stored" THEN "submit" ELSE "refused", m)
    /\ UNCHANGED <<ver, conf, note, ans, ret, ack, rep>>
Edit(m) ==
    /\ sub[m] # 0 /\ ver[m] = sub[m] /\ ver' = [ver EXCEPT ![m] = @ + 1] /\ Did("edit", m)
    /\ UNCHANGED <<sub, fate, conf, note, ans, ret, ack, rep>>
Confirm(m) ==
    /\ sub[m] # 0 /\ conf[m] < COPIES /\ conf' = [conf EXCEPT ![m] = @ + 1] /\ Did("confirm", m)
    /\ UNCHANGED <<ver, sub, fate, note, ans, ret, ack, rep>>
Notify(m) ==
    /\ fate[m] = "stored" /\ note[m] < COPIES /\ note' = [note EXCEPT ![m] = @ + 1] /\ Did("notify", m)
    /\ UNCHANGED <<ver, sub, fate, conf, ans, ret, ack, rep>>
Answer(m, a) ==
    /\ note[m] > 0 /\ ans[m] \in {"none", "Deferred"} /\ ans[m] # a
    /\ (a = "Retrieved" => ret[m] # <<>>)
    /\ ans' = [ans EXCEPT ![m] = a] /\ Did(a, m)
    /\ UNCHANGED <<ver, sub, fate, conf, note, ret, ack, rep>>
Retrieve(m) ==
    /\ note[m] > 0 /\ ans[m] # "Rejected" /\ Len(ret[m]) < COPIES
    /\ ret' = [ret EXCEPT ![m] = Append(@, sub[m])] /\ Did("retrieve", m)
    /\ UNCHANGED <<ver, sub, fate, conf, note, ans, ack, rep>>
Ack(m) ==
    /\ ack[m] < Len(ret[m]) /\ ack' = [ack EXCEPT ![m] = @ + 1] /\ Did("ack", m)
    /\ UNCHANGED <<ver, sub, fate, conf, note, ans, ret, rep>>
Report(m) ==
    /\ conf[m] > 0 /\ (ack[m] > 0 \/ ans[m] \in {"Rejected", "Retrieved"}) /\ rep[m] < COPIES
    /\ rep' = [rep EXCEPT ![m] = @ + 1] /\ Did("report", m)
    /\ UNCHANGED <<ver, sub, fate, conf, note, ans, ret, ack>>
(* the recipient looks at everything it has retrieved so far *)
Look(m) ==
    /\ ret[m] # <<>> /\ h[Len(h)][1] # "look" /\ Did("look", m)
    /\ UNCHANGED <<ver, sub, fate, conf, note, ans, ret, ack, rep>>
Next == /\ Len(h) < DEPTH
        /\ \E m \in Msgs : \/ \E f \in {"stored", "refused"} : Submit(m, f)
                           \/ Edit(m) \/ Confirm(m) \/ Notify(m) \/ Retrieve(m) \/ Ack(m) \/ Report(m)
                           \/ Look(m)
                           \/ \E a \in {"Deferred", "Rejected", "Retrieved"} : Answer(m, a)
Spec == Init /\ [][Next]_vars

Delivered == \A m \in Msgs : \A j \in 1..Len(ret[m]) : ret[m][j] = sub[m]
Refused == \A m \in Msgs : fate[m] = "refused" => note[m] = 0 /\ ret[m] = <<>> /\ rep[m] = 0
Causal == \A m \in Msgs :
            /\ rep[m] > 0 => ack[m] > 0 \/ ans[m] \in {"Rejected", "Retrieved"}
            /\ ack[m] > 0 \/ ans[m] = "Retrieved" => ret[m] # <<>>
            /\ ret[m] # <<>> \/ ans[m] # "none" => note[m] > 0
            /\ note[m] > 0 => fate[m] = "stored"
            /\ fate[m] # "none" <=> sub[m] # 0
Forwarded == sub[3] # 0 => ret[1] # <<>>
Final == [][\A m \in Msgs : ans[m] \in {"Rejected", "Retrieved"} => ans'[m] = ans[m]]_vars
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
NoHistory == <<ver, sub, fate, conf, note, ans, ret, ack, rep>>
=============================================================================
