-------------------------------- MODULE C28 --------------------------------
(***************************************************************************)
(* Exchanges of subscribers through a service centre (module SmsExchange). *)
(* The service centre goes by the octets of the PDUs; what it then does is *)
(* compared with what the subscribers asked for, and what the subscribers  *)
(* read with what was sent to them and what became of what they sent.      *)
(* The state: the subscribers' numbers, the clock, the messages, the parts *)
(* on their way, what became of each part, and what each has collected.    *)
(***************************************************************************)
EXTENDS Deliver
VARIABLES l, w, msgs, net, fates, got

(* ---- time ---------------------------------------------------------------- *)
Instant(d) == << DaysTo(d[1], d[2], d[3]), 3600 * d[4] + 60 * d[5] + d[6] >>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Plus(a, secs) == LET t == a[2] + (secs % 86400)
                 IN << a[1] + (secs \div 86400) + (t \div 86400), t % 86400 >>
(* the end of a validity v of a message submitted at d; v is not "none" *)
EndOf(v, d) ==
    IF v.k = "rel" THEN Plus(Instant(d), Period[CHOOSE p \in 0..255 : IsFloor(p, v.s)])
    ELSE Instant(ShiftMinutes(v.d, -v.off))
IsOver(m, now) == IF m.validity.k = "none" THEN FALSE ELSE ~Before(Instant(now), EndOf(m.validity, m.at))

(* ---- what is known ----------------------------------------------------------- *)
Msg(m) == CHOOSE x \in msgs : x.mid = m
Pkt(p) == CHOOSE x \in net : x.pid = p
Number(i) == w.numbers[i]
FatesOf(m, p) == { f[3] : f \in { g \in fates : g[1] = m /\ g[2] = p } }
SubmitsOf(e) == [i \in 1..Len(e.pdus) |-> IF IsHex(e.pdus[i]) THEN ParseSubmit(FromHex(e.pdus[i]))
                                          ELSE [ok |-> FALSE]]

(* ---- a submission ------------------------------------------------------------- *)
(* what an answer or a forwarded message must be about *)
About(e) == CASE e.kind = "new"     -> TRUE
              [] e.kind = "answer"  -> Msg(e.about).from = e.to
              [] e.kind = "forward" -> Msg(e.about).text = e.text
Submitted(e) ==
    IF ~e.ok THEN {"not-sent"}
    ELSE LET ps == SubmitsOf(e)
             n  == Len(ps)
         IN IF n = 0 \/ \E i \in 1..n : ~ps[i].ok THEN {"submit"}
            ELSE Chk("driver-about", About(e))
            \cup Chk("routed", \A i \in 1..n : NumberText(ps[i].toa, ps[i].digits) = Number(e.to))
            \cup Chk("through-the-service-centre", \A i \in 1..n :
                      IF e.csca THEN SmscObs(ps[i].smsc) = Str(w.centre) ELSE ps[i].smsc.len = 0)
            \cup Chk("report-asked-for", \A i \in 1..n : Srr(ps[i].first) = e.srr)
            \cup Chk("reference", \A i \in 1..n : ps[i].mr = (IF e.ref >= 0 THEN e.ref % 256 ELSE ps[1].mr))
            \cup Chk("coding", \A i \in 1..n : e.fmt >= 0 => AlphabetOf(ps[i].dcs) = e.fmt)
MsgOf(e) == [mid |-> e.mid, from |-> e.from, to |-> e.to, text |-> e.text, at |-> w.now, srr |-> e.srr,
             validity |-> e.validity, subs |-> SubmitsOf(e)]

(* ---- the service centre ------------------------------------------------------- *)
Relayed(m, s, d) ==
    IF ~s.ok \/ ~d.ok THEN FALSE
    ELSE /\ Mti(s.first) = 1 /\ Mti(d.first) = 0 /\ Udhi(s.first) = Udhi(d.first)
         /\ s.pid = d.pid /\ s.dcs = d.dcs /\ s.udl = d.udl /\ s.ud = d.rest
         /\ AddressOk(d.toa, d.n, d.addr) /\ AddressText(d.toa, d.n, d.addr) = Number(m.from)
         /\ SmscOk(d.smsc) /\ SmscObs(d.smsc) = Str(w.centre)
         /\ StampDateOk(d.scts) /\ UtcObs(d.scts) = DateObs(m.at)
(* dt: when the part came to its end, or the last attempt *)
Reported(m, e, q) ==
    /\ Kind(e.pdu, TRUE) = "report" /\ m.srr
    /\ q.mr = m.subs[e.part].mr
    /\ NumberText(q.toa, NumberField(q.addr, q.n).digits) = Number(m.to)
    /\ StampDateOk(q.scts) /\ UtcObs(q.scts) = DateObs(m.at)
    /\ Len(q.after) > 0
    /\ CASE e.fate = "arrived" -> q.after[1] = 0 /\ "arrived" \in FatesOf(m.mid, e.part)
         [] e.fate = "expired" -> q.after[1] = 70 /\ "expired" \in FatesOf(m.mid, e.part)
         [] OTHER              -> q.after[1] \in 32..63 /\ FatesOf(m.mid, e.part) = {}
(* the sender finds the submission by reference and recipient *)
Candidates(m) == { x \in msgs : x.from = m.from /\ x.to = m.to /\ x.subs[1].mr = m.subs[1].mr }

(* ---- the recipient ------------------------------------------------------------- *)
KeyOf(who, v) == <<who, v.number, v.ref, v.cnt>>
Entry(who, pk, v) == [key |-> KeyOf(who, v), seq |-> v.seq, text |-> v.text, mid |-> pk.mid, part |-> pk.part]
Codes_(v) == IF v.k = "s" THEN v.c ELSE <<-1>>
Arrival(pk, r) ==
    IF ~r.ok THEN {"refused"}
    ELSE LET m == Msg(pk.mid)
             v  == r.v.d
             n  == Len(m.subs)
         IN Both("sender", r.v, "number", Str(Number(m.from)))
            \cup Both("submitted-at", r.v, "date", DateObs(m.at))
            \cup Both("service-centre", r.v, "csca", Str(w.centre))
            \cup Both("not-a-report", r.v, "sr", None)
            \cup Both("alphabet", r.v, "fmt", Int_(AlphabetOf(m.subs[1].dcs)))
            \cup (IF n = 1
                 THEN Both("whole-text", r.v, "text", Str(m.text))
                      \cup Both("not-a-part", r.v, "ref", None)
                 ELSE LET all  == got \cup {Entry(m.to, pk, v)}
                          mine == { g \in all : g.key = KeyOf(m.to, v) }
                          own  == { g \in all : g.mid = pk.mid }
                          done == { g.seq : g \in mine } = { Int_(i) : i \in 1..n }
                          PartText(i) == Codes_((CHOOSE g \in mine : g.seq = Int_(i)).text)
                      IN Chk("count", v.cnt = Int_(n))
                         \cup Chk("attribution", \A g \in mine : g.mid = pk.mid)
                         \cup Chk("complete", done = ({ g.part : g \in own } = 1..n))
                         \cup (IF done THEN Chk("reassembly",
                                 Join([i \in 1..n |-> PartText(i)]) = m.text) ELSE {}))

Judge(e) ==
    CASE e.op = "world"  -> Chk("driver-numbers", \A i, j \in 1..Len(e.numbers) :
                                  e.numbers[i] = e.numbers[j] => i = j)
      [] e.op = "clock"  -> Chk("driver-clock", ~Before(Instant(e.now), Instant(w.now)))
      [] e.op = "submit" -> Submitted(e)
      [] e.op = "relay"  ->
           LET m == Msg(e.mid)
           IN Chk("driver-relay", Relayed(m, m.subs[e.part], ParseDeliver(FromHex(e.pdu)))
                                  /\ "expired" \notin FatesOf(e.mid, e.part))
              \cup Chk("discarded-in-time", ~IsOver(m, w.now))
      [] e.op = "expire" -> Chk("driver-expire", FatesOf(e.mid, e.part) = {})
                            \cup Chk("kept-while-valid", IsOver(Msg(e.mid), w.now))
      [] e.op = "arrive" -> Arrival(Pkt(e.pid), e.r)
      [] e.op = "report" ->
           LET m == Msg(e.mid)
               q == ParseReport(OctetsOf(e.pdu))
           IN Chk("driver-report", Reported(m, e, q))
              \cup (IF ~e.r.ok THEN {"refused"}
                    ELSE ReportClauses(q, e.r.v)
                         \cup Chk("report-of", Candidates(m) = {m} => e.found = e.mid)
                         \cup Chk("outcome", e.r.v.d.number = Str(LabelCodes[Label(q.after[1])])))

NoWorld == [numbers |-> <<>>, centre |-> <<>>, now |-> <<2000, 1, 1, 0, 0, 0>>]
Init == l = 1 /\ w = NoWorld /\ msgs = {} /\ net = {} /\ fates = {} /\ got = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               new == e.op = "world"
           IN /\ Report(l, Judge(e))
              /\ w' = CASE new -> [numbers |-> e.numbers, centre |-> e.centre, now |-> e.now]
                        [] e.op = "clock" -> [w EXCEPT !.now = e.now]
                        [] OTHER -> w
              /\ msgs' = CASE new -> {} [] e.op = "submit" -> msgs \cup {MsgOf(e)} [] OTHER -> msgs
              /\ net' = CASE new -> {}
                          [] e.op = "relay" -> net \cup {[pid |-> e.pid, mid |-> e.mid, part |-> e.part]}
                          [] OTHER -> net
              /\ fates' = CASE new -> {}
                            [] e.op = "expire" -> fates \cup {<<e.mid, e.part, "expired">>}
                            [] e.op = "arrive" -> fates \cup {<<Pkt(e.pid).mid, Pkt(e.pid).part, "arrived">>}
                            [] OTHER -> fates
              /\ got' = CASE new -> {}
                          [] e.op = "arrive" ->
                               LET pk == Pkt(e.pid)
                                   m  == Msg(pk.mid)
                               IN IF e.r.ok /\ Len(m.subs) > 1
                                  THEN got \cup {Entry(m.to, pk, e.r.v.d)} ELSE got
                          [] OTHER -> got
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, w, msgs, net, fates, got>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
