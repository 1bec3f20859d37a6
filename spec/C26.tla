-------------------------------- MODULE C26 --------------------------------
(***************************************************************************)
(* Conversations of clients through an MMSC: what a client composes is     *)
(* what the other retrieves, what the MMSC says is what a client           *)
(* understands, and answers name what they answer.                         *)
(* The state: the composed objects (module MmsMessage), the submissions    *)
(* and notifications so far, and what has been retrieved.                  *)
(***************************************************************************)
EXTENDS MmsMessage, Wap
VARIABLES l, s, subs, notes, rets
By(set, k, v) == CHOOSE x \in set : x[k] = v
H(hs, name) == LET J == {j \in 1..Len(hs) : hs[j].name = Codes(name)}
               IN IF J = {} THEN None ELSE hs[CHOOSE j \in J : TRUE].v
Says(p, name, v) == H(p.v.hdrs, name) = v
IsPdu(p, type) == IF ~Is(p, "ok") THEN FALSE ELSE Says(p, "Message-Type", Str(Codes(type))) /\ Once(p.v.hdrs)
(* a PDU without content that a client encodes                             *)
Answer(r, type, tid, others) ==
    IF ~r.ok THEN {"refused"}
    ELSE LET p == Message(r.v.a)
         IN IF ~Is(p, "ok") THEN {"well-formed"}
            ELSE Chk("answer-type", IsPdu(p, type))
                 \cup Chk("answer-transaction", Says(p, "Transaction-Id", Str(tid)))
                 \cup Chk("answer-version", Says(p, "MMS-Version", Str(Codes("1.0"))))
                 \cup Chk("answer-headers", Names(p.v.hdrs) =
                            {MType, TransactionId, MVersion, CTName} \cup {others[j][1] : j \in 1..Len(others)}
                            /\ \A j \in 1..Len(others) : \A i \in 1..Len(p.v.hdrs) :
                                 p.v.hdrs[i].name = others[j][1] => p.v.hdrs[i].v = others[j][2])
(* ---- the driver's MMSC says what it should ----------------------------- *)
ConfirmIs(e, x) ==
    LET p == Message(e.o)
    IN /\ IsPdu(p, "m-send-conf") /\ Says(p, "Transaction-Id", Str(x.tid)) /\ Says(p, "Message-ID", Str(e.mid))
       /\ Says(p, "Response-Status", Str(Codes("Ok"))) <=> x.stored
NotifyIs(e, x) ==
    LET p == Push(e.o)
    IN /\ IsPdu(p, "m-notification-ind") /\ Says(p, "Transaction-Id", Str(e.tid))
       /\ Says(p, "Content-Location", Str(e.loc)) /\ Says(p, "From", Str(e.from))
       /\ Says(p, "Message-Size", Num(OctetsOf(Len(x.o)))) /\ x.stored
RetrieveIs(e, x) ==
    LET p == Message(e.o)
        q == Message(x.o)
    IN /\ IsPdu(p, "m-retrieve-conf") /\ p.v.parts = q.v.parts /\ p.n = Len(e.o) + 1
       /\ Says(p, "Content-Type", H(q.v.hdrs, "Content-Type")) /\ Says(p, "Transaction-Id", Str(e.tid))
       /\ \A n \in {"To", "Cc", "Subject"} : Says(p, n, H(q.v.hdrs, n))
       /\ H(p.v.hdrs, "From").k = "s"
       /\ H(q.v.hdrs, "From") \notin {None, Str(NotInserted)} => Says(p, "From", H(q.v.hdrs, "From"))
ReportIs(e) ==
    LET p == Message(e.o)
    IN IsPdu(p, "m-delivery-ind") /\ Says(p, "Message-ID", Str(e.mid)) /\ Says(p, "Status", Str(e.status))
(* ---- what was composed is what is retrieved ------------------------------ *)
ArrivedPart(v, q) ==
    Chk("arrived-data", v.data = q.data /\ v.len = Len(q.data))
    \cup Chk("arrived-content-type", IsContentType(Lookup(v.headers, CTName), q.ct))
    \cup Chk("arrived-part-headers", /\ Len(v.headers) = Len(q.hdrs) + 1
                                     /\ \A j \in 1..Len(q.hdrs) : Lookup(v.headers, q.hdrs[j][1]) = q.hdrs[j][2])
Arrived(r, x) ==
    IF ~r.ok THEN {"refused"}
    ELSE LET xs == <<Presentation(x.doc)>> \o x.parts
         IN (IF Len(r.v.parts) # Len(xs) THEN {"arrived-parts"}
             ELSE UNION {ArrivedPart(r.v.parts[j], xs[j]) : j \in 1..Len(xs)})
            \cup Chk("arrived-type", IsContentType(Lookup(r.v.headers, CTName), x.ct))
            \cup Chk("arrived-headers",
                     \A n \in {"To", "Cc", "Subject"} : HasKey(x.hdrs, Codes(n)) =>
                         Lookup(r.v.headers, Codes(n)) = Get(x.hdrs, Codes(n)))
Decoded(r, o) == LET p == Message(o) IN IF Is(p, "ok") THEN MessageShows(r, p.v) ELSE {"builder"}
Judge(st, e) ==
    CASE e.op = "submit" ->
           EncClauses(st, e, {"headers", "body"})
      [] e.op = "confirm" ->
           LET x == By(subs, "x", e.x)
           IN Chk("driver-confirm", ConfirmIs(e, x)) \cup Decoded(e.r, e.o)
              \cup Chk("confirmation-of", e.found = e.x)
      [] e.op = "notify" ->
           LET x == By(subs, "x", e.x)
           IN Chk("driver-notify", NotifyIs(e, x))
              \cup MessageShows(e.r, Push(e.o).v)
              \cup Chk("is-a-notification", e.notif = [ok |-> TRUE, v |-> Bool(TRUE)])
      [] e.op = "answer" ->
           Answer(e.r, "m-notifyresp-ind", By(notes, "n", e.n).tid, << <<Codes("Status"), Str(e.status)>> >>)
      [] e.op = "retrieve" ->
           LET n == By(notes, "n", e.n)
               x == By(subs, "x", n.x)
           IN Chk("driver-retrieve", RetrieveIs(e, x))
              \cup Chk("location", e.loc = Str(n.loc))
              \cup Decoded(e.r, e.o) \cup Arrived(e.r, x)
      [] e.op = "ack" -> Answer(e.r, "m-acknowledge-ind", By(rets, "k", e.k).tid, <<>>)
      [] e.op = "report" -> Chk("driver-report", ReportIs(e)) \cup Decoded(e.r, e.o)
                            \cup Chk("report-of", e.found = e.x)
      [] e.op = "lookret" -> LET k == By(rets, "k", e.k)
                           IN Decoded(e.r, k.o) \cup Arrived(e.r, By(subs, "x", By(notes, "n", k.n).x))
      [] e.op = "forward" -> Chk("forwarded", e.r.ok)
      [] OTHER -> Clauses(st, e, {})
(* the parts of a retrieved message join the composed message e.m          *)
Forward(st, e) ==
    LET x == By(subs, "x", By(notes, "n", By(rets, "k", e.k).n).x)
        ps == <<Presentation(x.doc)>> \o x.parts
        n == Len(st.parts)
    IN [st EXCEPT !.parts = @ \o ps, !.msgs[e.m].parts = @ \o [j \in 1..Len(ps) |-> n + j]]
Init == l = 1 /\ s = NoWorld /\ subs = {} /\ notes = {} /\ rets = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN /\ Report(l, Judge(s, e))
              /\ s' = CASE e.op = "forward" -> Forward(s, e)
                        [] e.op \in {"submit", "confirm", "notify", "answer", "retrieve", "ack", "report",
                                     "lookret"} -> s
                        [] OTHER -> After(s, e)
              /\ subs' = CASE e.op = "reset" -> {}
                           [] e.op = "submit" /\ e.r.ok ->
                              subs \cup {[x |-> e.x, tid |-> e.tid, stored |-> e.stored, o |-> e.r.v.a,
                                          doc |-> e.doc, parts |-> ContentParts(s, s.msgs[e.m]),
                                          hdrs |-> s.msgs[e.m].hdrs, ct |-> s.msgs[e.m].ct]}
                           [] OTHER -> subs
              /\ notes' = CASE e.op = "reset" -> {}
                            [] e.op = "notify" -> notes \cup {[n |-> e.n, x |-> e.x, tid |-> e.tid, loc |-> e.loc]}
                            [] OTHER -> notes
              /\ rets' = CASE e.op = "reset" -> {}
                           [] e.op = "retrieve" -> rets \cup {[k |-> e.k, n |-> e.n, tid |-> e.tid, o |-> e.o]}
                           [] OTHER -> rets
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, subs, notes, rets>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
