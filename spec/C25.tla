-------------------------------- MODULE C25 --------------------------------
(***************************************************************************)
(* WAP pushes carried by SMS: each is cut into user data of DELIVER PDUs    *)
(* with ports and concatenation elements, which arrive in some order with  *)
(* duplicates among those of other pushes and ordinary messages.  The      *)
(* receiver joins texts of the same sender, reference and count; when all  *)
(* parts of a push have arrived, the push comes out whole.                 *)
(* The state: the messages sent, the PDUs on their way, what has arrived.  *)
(***************************************************************************)
EXTENDS Deliver, Wap
VARIABLES l, msgs, net, got
Msg(m) == CHOOSE x \in msgs : x.mid = m
Pkt(p) == CHOOSE x \in net : x.pid = p
PartsOf(o) == Len(o)
(* the driver's network is the one described above *)
Carries(e, m) ==
    LET p == ParseDeliver(FromHex(e.pdu))
        c == ConcatOf(IesOf(p))
        q == PortsOf(IesOf(p))
    IN /\ IsDeliver(FromHex(e.pdu)) /\ Udhi(p.first)
       /\ AddressText(p.toa, p.n, p.addr) = m.sender
       /\ TextOfPdu(p) = m.pieces[e.part]
       /\ q.some /\ q.dest = m.port
       /\ IF ~m.conc THEN Len(m.pieces) = 1 /\ ~c.some
          ELSE c.some /\ c.ref = m.ref /\ c.cnt = Len(m.pieces) /\ c.seq = e.part
PushShows(c, o) ==
    LET p == Push(o)
    IN Chk("recognised", c.is = [ok |-> TRUE, v |-> Bool(IsPush(o))])
       \cup (IF ~IsPush(o) THEN Chk("not-a-push-not-refused", ~c.r.ok)
             ELSE IF ~Is(p, "ok") THEN {"the-builder-and-the-parser-disagree"}
             ELSE IF ~Once(p.v.hdrs) THEN {}
             ELSE MessageShows(c.r, p.v)
                  \cup Chk("notification", c.notif = [ok |-> TRUE, v |-> Bool(IsNotification(p.v.hdrs))]))
Arrival(e) ==
    LET k == Pkt(e.pid)
        m == Msg(k.mid)
        n == Len(m.pieces)
        have == {g.part : g \in {g \in got : g.mid = k.mid}} \cup {k.part}
        v == e.r.v
    IN IF ~e.r.ok THEN {"refused"}
       ELSE Chk("sender", v.number = Str(m.sender))
            \cup Chk("data", v.text = Str(m.pieces[k.part]))
            \cup Chk("port", v.port = Int_(m.port))
            \cup Chk("part", <<v.ref, v.cnt, v.seq>> =
                             (IF ~m.conc THEN <<None, None, None>> ELSE <<Int_(m.ref), Int_(n), Int_(k.part)>>))
            \cup Chk("complete", e.col.some = (have = 1..n))
            \cup (IF e.col.some /\ have = 1..n THEN PushShows(e.col, FlattenSeq(m.pieces)) ELSE {})
Judge(e) ==
    CASE e.op = "new"    -> {}
      [] e.op = "send"   -> {}
      [] e.op = "relay"  -> Chk("driver-relay", Carries(e, Msg(e.mid)))
      [] e.op = "arrive" -> Arrival(e)
Init == l = 1 /\ msgs = {} /\ net = {} /\ got = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(e))
              /\ msgs' = CASE e.op = "new" -> {}
                           [] e.op = "send" -> msgs \cup {[mid |-> e.mid, sender |-> e.sender, ref |-> e.ref,
                                                           port |-> e.port, pieces |-> e.pieces, conc |-> e.conc]}
                           [] OTHER -> msgs
              /\ net' = CASE e.op = "new" -> {}
                          [] e.op = "relay" -> net \cup {[pid |-> e.pid, mid |-> e.mid, part |-> e.part]}
                          [] OTHER -> net
              /\ got' = CASE e.op = "new" -> {}
                          [] e.op = "arrive" -> got \cup {[mid |-> Pkt(e.pid).mid, part |-> Pkt(e.pid).part]}
                          [] OTHER -> got
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, msgs, net, got>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
