----------------------------- MODULE SmsExchange -----------------------------
(***************************************************************************)
(* Subscribers who exchange short messages through a service centre that   *)
(* stores, relays, discards and reports (3GPP TS 23.040, section 3).       *)
(* Message 1 goes from A to B in SPLIT parts; B answers it (message 2) and   *)
(* passes it on to C (message 3, as long) once it has been read.  The    *)
(* service centre may send a part again when it did not hear of its        *)
(* arrival; a part still stored when its validity ends is discarded.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NMSGS, SPLIT,\* messages, and parts of a long one
          COPIES,      \* how often a part is sent, and each report
          ENDOFTIME,   \* the clock stops there
          HISTORY      \* whether the behaviour is recorded
DEPTH == atoi(IOEnv.DEPTH)
Msgs == 1..NMSGS
PartsOf(m) == IF m = 2 THEN 1..1 ELSE 1..SPLIT
Parts == UNION { {<<m, p>> : p \in PartsOf(m)} : m \in Msgs }
Valid(m) == CASE m = 1 -> 2 [] m = 2 -> 1 [] OTHER -> 3
VARIABLES clock, sub,  \* time of submission, or -1
          st,          \* part -> "none", "stored", "relayed", "arrived", "expired"
          left,        \* part -> when it was relayed first, or -1
          sent,        \* part -> copies sent
          came,        \* part -> copies that arrived
          rep,         \* part -> reports of its end that the sender got
          held,        \* part -> reports that it is held
          told,        \* part -> outcomes reported
          h
vars == <<clock, sub, st, left, sent, came, rep, held, told, h>>
Init == /\ clock = 0 /\ sub = [m \in Msgs |-> -1] /\ st = [x \in Parts |-> "none"]
        /\ left = [x \in Parts |-> -1]
        /\ sent = [x \in Parts |-> 0] /\ came = [x \in Parts |-> 0]
        /\ rep = [x \in Parts |-> 0] /\ held = [x \in Parts |-> 0] /\ told = [x \in Parts |-> {}]
        /\ h = <<>>
Did(op, m, p) == h' = IF HISTORY THEN Append(h, <<op, m, p>>) ELSE h
Read(m) == \A p \in PartsOf(m) : came[<<m, p>>] > 0
Over(m) == clock >= sub[m] + Valid(m)
Submit(m) ==
    /\ sub[m] = -1 /\ (m # 1 => Read(1))
    /\ sub' = [sub EXCEPT ![m] = clock]
    /\ st' = [x \in Parts |-> IF x[1] = m THEN "stored" ELSE st[x]]
    /\ Did("submit", m, 0) /\ UNCHANGED <<clock, left, sent, came, rep, held, told>>
Relay(x) ==
    /\ st[x] \in {"stored", "relayed"} /\ sent[x] < COPIES /\ ~Over(x[1])
    /\ st' = [st EXCEPT ![x] = "relayed"] /\ sent' = [sent EXCEPT ![x] = @ + 1]
    /\ left' = [left EXCEPT ![x] = IF @ = -1 THEN clock ELSE @]
    /\ Did("relay", x[1], x[2]) /\ UNCHANGED <<clock, sub, came, rep, held, told>>
Arrive(x) ==
    /\ came[x] < sent[x]
    /\ came' = [came EXCEPT ![x] = @ + 1] /\ st' = [st EXCEPT ![x] = "arrived"]
    /\ Did("arrive", x[1], x[2]) /\ UNCHANGED <<clock, sub, left, sent, rep, held, told>>
Expire(x) ==
    /\ st[x] = "stored" /\ Over(x[1])
    /\ st' = [st EXCEPT ![x] = "expired"]
    /\ Did("expire", x[1], x[2]) /\ UNCHANGED <<clock, sub, left, sent, came, rep, held, told>>
ReportEnd(x) ==
    /\ st[x] \in {"arrived", "expired"} /\ rep[x] < COPIES
    /\ rep' = [rep EXCEPT ![x] = @ + 1] /\ told' = [told EXCEPT ![x] = @ \cup {st[x]}]
    /\ Did("report", x[1], x[2]) /\ UNCHANGED <<clock, sub, st, left, sent, came, held>>
ReportHeld(x) ==
    /\ st[x] = "stored" /\ held[x] < 1 /\ held' = [held EXCEPT ![x] = @ + 1]
    /\ Did("held", x[1], x[2]) /\ UNCHANGED <<clock, sub, st, left, sent, came, rep, told>>
Tick == /\ clock < ENDOFTIME /\ clock' = clock + 1
        /\ Did("tick", 0, 0) /\ UNCHANGED <<sub, st, left, sent, came, rep, held, told>>
Next == /\ Len(h) < DEPTH
        /\ \/ Tick
           \/ \E m \in Msgs : Submit(m)
           \/ \E x \in Parts : Relay(x) \/ Arrive(x) \/ Expire(x) \/ ReportEnd(x) \/ ReportHeld(x)
Spec == Init /\ [][Next]_vars
Works == /\ WF_vars(Tick)
         /\ \A x \in Parts : WF_vars(Relay(x)) /\ WF_vars(Arrive(x)) /\ WF_vars(Expire(x)) /\ WF_vars(ReportEnd(x))
Fair == Spec /\ Works

InTime == \A x \in Parts : left[x] >= 0 => left[x] < sub[x[1]] + Valid(x[1])
Truthful == \A x \in Parts : /\ told[x] \subseteq {st[x]}
                             /\ (st[x] = "arrived") <=> (came[x] > 0)
NoReturn == \A x \in Parts : st[x] = "expired" => sent[x] = 0
Causal == \A m \in Msgs \ {1} : sub[m] >= 0 => Read(1)
Final == [][\A x \in Parts : st[x] \in {"arrived", "expired"} => st'[x] = st[x]]_vars
(* every part comes to an end, and its sender hears of it *)
Ends == \A x \in Parts : (st[x] = "stored") ~> (st[x] \in {"arrived", "expired"})
Heard == \A x \in Parts : (st[x] = "stored") ~> (told[x] # {})
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
=============================================================================
