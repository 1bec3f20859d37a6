------------------------------ MODULE SmsSystem ------------------------------
(***************************************************************************)
(* Senders, a network that reorders and duplicates, and a receiver that    *)
(* collects parts by sender, reference and count.  References are drawn    *)
(* per sender from a pool.  Checked: parts with different references never *)
(* mix, and a message is complete exactly when all its parts arrived, and  *)
(* then reads as what was sent.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MAXDUP,      \* how many copies of a part the network delivers
          POOL         \* size of the pool of references
DEPTH == atoi(IOEnv.DEPTH)
(* the messages: sender, number of parts *)
Plan == << [snd |-> "a", n |-> 2], [snd |-> "a", n |-> 2], [snd |-> "b", n |-> 2], [snd |-> "a", n |-> 1] >>
Msgs == 1..Len(Plan)

VARIABLES sent,    \* message -> reference, 0 when not sent
          next,    \* sender -> references drawn
          copies,  \* <<message, part>> -> copies delivered
          got,     \* the receiver: set of [key, seq, piece]
          read,    \* the receiver: single messages read
          h
vars == <<sent, next, copies, got, read, h>>
Parts == { <<m, p>> \in Msgs \X (1..2) : p <= Plan[m].n }
Init == /\ sent = [m \in Msgs |-> 0] /\ next = [s \in {"a", "b"} |-> 0]
        /\ copies = [x \in Parts |-> 0] /\ got = {} /\ read = {} /\ h = <<>>
Send(m) ==
    /\ sent[m] = 0 /\ \A k \in 1..(m - 1) : Plan[k].snd = Plan[m].snd => sent[k] # 0
    /\ LET s == Plan[m].snd
           r == 1 + (next[s] % POOL)
       IN /\ sent' = [sent EXCEPT ![m] = r]
          /\ next' = [next EXCEPT ![s] = @ + 1]
    /\ h' = Append(h, <<"send", m, 0>>)
    /\ UNCHANGED <<copies, got, read>>
KeyOf(m) == <<Plan[m].snd, sent[m], Plan[m].n>>
Arrive(m, p) ==
    /\ sent[m] # 0 /\ copies[<<m, p>>] < MAXDUP
    /\ copies' = [copies EXCEPT ![<<m, p>>] = @ + 1]
    /\ IF Plan[m].n = 1 THEN read' = read \cup {m} /\ UNCHANGED got
       ELSE got' = got \cup {[key |-> KeyOf(m), seq |-> p, piece |-> <<m, p>>]} /\ UNCHANGED read
    /\ h' = Append(h, <<"arrive", m, p>>)
    /\ UNCHANGED <<sent, next>>
Next == /\ Len(h) < DEPTH
        /\ \E m \in Msgs : Send(m) \/ \E p \in 1..Plan[m].n : Arrive(m, p)
Spec == Init /\ [][Next]_vars

Group(k) == { g \in got : g.key = k }
Complete(k) == { g.seq : g \in Group(k) } = 1..k[3]
(* with fewer messages than references in flight, groups do not mix *)
NoMix == \A g, g2 \in got : g.key = g2.key => g.piece[1] = g2.piece[1]
Whole == \A m \in Msgs : sent[m] # 0 /\ Plan[m].n > 1 =>
           (Complete(KeyOf(m)) <=> \A p \in 1..Plan[m].n : copies[<<m, p>>] > 0)
Reads == \A m \in Msgs : sent[m] # 0 /\ Plan[m].n > 1 /\ Complete(KeyOf(m)) =>
           \A p \in 1..Plan[m].n : [key |-> KeyOf(m), seq |-> p, piece |-> <<m, p>>] \in got
OnceEach == \A k \in { g.key : g \in got } : Cardinality(Group(k)) <= k[3]
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
NoHistory == <<sent, next, copies, got, read>>
=============================================================================
