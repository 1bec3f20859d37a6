-------------------------------- MODULE C11 --------------------------------
(***************************************************************************)
(* End to end: what the real encoder produced, relayed by a service        *)
(* centre, delivered in some order with duplicates, decoded by the real    *)
(* decoder and collected by the receiver of this specification.            *)
(***************************************************************************)
EXTENDS Deliver
VARIABLES l, msgs, net, got

(* ---- the service centre: a DELIVER made of a SUBMIT --------------------- *)
Relayed(sub, del, sender) ==
    /\ sub.ok /\ del.ok
    /\ Mti(sub.first) = 1 /\ Mti(del.first) = 0
    /\ Udhi(sub.first) = Udhi(del.first)
    /\ sub.pid = del.pid /\ sub.dcs = del.dcs /\ sub.udl = del.udl
    /\ sub.ud = del.rest
    /\ AddressOk(del.toa, del.n, del.addr)
    /\ AddressText(del.toa, del.n, del.addr) = sender
    /\ SmscOk(del.smsc) /\ StampDateOk(del.scts)

SubmitsOf(e) == [i \in 1..Len(e.pdus) |-> IF IsHex(e.pdus[i]) THEN ParseSubmit(FromHex(e.pdus[i]))
                                          ELSE [ok |-> FALSE]]
MsgOf(e) == [mid |-> e.mid, sender |-> e.sender, text |-> e.text, subs |-> SubmitsOf(e)]
Msg(m) == CHOOSE x \in msgs : x.mid = m
Pkt(p) == CHOOSE x \in net : x.pid = p

(* ---- the receiver ---------------------------------------------------------- *)
KeyOf(v) == <<v.number, v.ref, v.cnt>>
Entry(pk, v) == [key |-> KeyOf(v), seq |-> v.seq, text |-> v.text, mid |-> pk.mid, part |-> pk.part]
Codes_(v) == IF v.k = "s" THEN v.c ELSE <<-1>>
Arrival(pk, r) ==
    IF ~r.ok THEN {"refused"}
    ELSE LET m  == Msg(pk.mid)
             v  == r.v
             n  == Len(m.subs)
         IN Chk("sender", v.number = Str(m.sender)) \cup
            IF n = 1
            THEN Chk("whole-text", v.text = Str(m.text))
                 \cup Chk("not-a-part", v.ref = None /\ v.cnt = None /\ v.seq = None)
            ELSE LET all  == got \cup {Entry(pk, v)}
                     mine == { g \in all : g.key = KeyOf(v) }
                     own  == { g \in all : g.mid = pk.mid }
                     seqs == { g.seq : g \in mine }
                     want == { Int_(i) : i \in 1..n }
                     done == seqs = want
                     PartText(i) == Codes_((CHOOSE g \in mine : g.seq = Int_(i)).text)
                 IN Chk("count", v.cnt = Int_(n))
                    \cup Chk("sequence", v.seq \in want)
                    \cup Chk("attribution", \A g \in mine : g.mid = pk.mid)
                    \cup Chk("one-reference", \A g \in own : g.key = KeyOf(v))
                    \cup Chk("duplicates", \A g, g2 \in mine : g.seq = g2.seq => g.text = g2.text)
                    \cup Chk("complete", done = ({ g.part : g \in own } = 1..n))
                    \cup (IF done THEN Chk("reassembly",
                            Join([i \in 1..n |-> PartText(i)]) = m.text) ELSE {})

Judge(e) ==
    CASE e.op = "new"    -> {}
      [] e.op = "send"   -> IF ~e.ok THEN {"not-sent"}
                            ELSE Chk("submit", Len(e.pdus) > 0 /\ \A i \in 1..Len(e.pdus) : SubmitsOf(e)[i].ok)
      [] e.op = "relay"  -> Chk("driver-relay",
                              LET s == Msg(e.mid).subs[e.part]
                              IN IF s.ok THEN Relayed(s, ParseDeliver(FromHex(e.pdu)), Msg(e.mid).sender)
                                 ELSE FALSE)
      [] e.op = "arrive" -> Arrival(Pkt(e.pid), e.r)

Init == l = 1 /\ msgs = {} /\ net = {} /\ got = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(e))
              /\ msgs' = CASE e.op = "new" -> {} [] e.op = "send" -> msgs \cup {MsgOf(e)} [] OTHER -> msgs
              /\ net' = CASE e.op = "new" -> {}
                          [] e.op = "relay" -> net \cup {[pid |-> e.pid, mid |-> e.mid, part |-> e.part]}
                          [] OTHER -> net
              /\ got' = CASE e.op = "new" -> {}
                          [] e.op = "arrive" -> IF e.r.ok /\ Len(Msg(Pkt(e.pid).mid).subs) > 1
                                                THEN got \cup {Entry(Pkt(e.pid), e.r.v)} ELSE got
                          [] OTHER -> got
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, msgs, net, got>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
