-------------------------------- MODULE C19 --------------------------------
(* Sessions: every result is what the state of the message asks for, looks  *)
(* leave that state alone and give the same again, and files hold what was  *)
(* encoded.  memo: <<message, look, result>> since the last change; disk:   *)
(* file -> octets.                                                          *)
EXTENDS MmsMessage
VARIABLES l, s, memo, disk
Nothing == [k |-> "none"]
Looking == {"file", "away", "back", "enc", "smil", "list", "lookmsg", "tofile", "fromfile", "touch"}
Ill(v) == IF v.k = "s" THEN \E j \in 1..Len(v.c) : v.c[j] = 0 ELSE FALSE
IllIn(q) == \E j \in 1..Len(q) : Ill(q[j][2])
Fit(st, m) == ~IllIn(m.hdrs) /\ \A j \in 1..Len(ContentParts(st, m)) : ~IllIn(ContentParts(st, m)[j].hdrs)
Again(e, what, v) == Chk("same-" \o what, \A x \in memo : x[1] = e.m /\ x[2] = what => x[3] = v)
(* a transaction id that is for the encoder to choose may be another each time *)
AgainEncoded(st, e, v) ==
    IF \/ HasKey(st.msgs[e.m].hdrs, TransactionId)
       \/ HasKey(st.msgs[e.m].hdrs, Codes("X-Mms-Transaction-Id")) THEN Again(e, "encoding", v) ELSE {}
Enc(st, e) ==
    IF Fit(st, st.msgs[e.m])
    THEN Clauses(st, e, {"headers", "body"})
         \cup (IF e.r.ok THEN AgainEncoded(st, e, e.r.v) ELSE {})
    ELSE Chk("refused", FailsWith(e.r, "EncodeError"))
(* the message as it is, headers unsent *)
MsgLooks(st, m, v) ==
    Chk("message-headers", /\ Len(v.headers) = Len(m.hdrs) + 1
                           /\ \A j \in 1..Len(m.hdrs) : Lookup(v.headers, m.hdrs[j][1]) = m.hdrs[j][2]
                           /\ IsContentType(Lookup(v.headers, CTName), m.ct))
    \cup Chk("message-pages", Len(v.pages) = Len(m.pages)
             /\ \A j \in 1..Len(m.pages) : PageLooks(v.pages[j], st.pages[m.pages[j]]) = {})
    \cup Chk("message-type", v.ct = Str(m.ct.media))
Judge(st, e) ==
    CASE OutOfReach(st, e) -> IF e.op = "tofile" THEN Chk("file-kept", e.stored = disk[e.f]) ELSE {}
      [] e.op = "enc" -> Enc(st, e)
      [] e.op = "smil" -> Clauses(st, e, {}) \cup (IF e.r.ok THEN Again(e, "presentation", e.r.v) ELSE {})
      [] e.op = "list" -> Clauses(st, e, {}) \cup (IF e.r.ok THEN Again(e, "list", e.r.v) ELSE {})
      [] e.op = "lookmsg" -> IF e.r.ok THEN MsgLooks(st, st.msgs[e.m], e.r.v) ELSE {"message"}
      [] e.op = "tofile" ->
           IF Fit(st, st.msgs[e.m])
           THEN Chk("saved", e.r.ok)
                \cup (IF e.stored.k = "a" THEN AgainEncoded(st, e, e.stored)
                          \cup Clauses(st, [op |-> "enc", m |-> e.m, doc |-> e.doc, seen |-> e.seen,
                                            r |-> [ok |-> TRUE, v |-> e.stored]], {"headers", "body"})
                      ELSE {"stored"})
           ELSE Chk("refused", FailsWith(e.r, "EncodeError"))
                \cup Chk("file-kept", e.stored = disk[e.f])
      [] e.op = "fromfile" -> Chk("loaded", e.a.ok /\ e.b.ok /\ e.a = e.b)
                              \cup Chk("file-unchanged", e.stored = disk[e.f])
      [] e.op \in {"adopt", "touch"} -> {}
      [] OTHER -> Clauses(st, e, {})
Files == 1..2
Init == l = 1 /\ s = NoWorld /\ memo = {} /\ disk = [f \in Files |-> Nothing]
Remember(e) ==
    CASE e.op = "enc" /\ e.r.ok -> {<<e.m, "encoding", e.r.v>>}
      [] e.op = "smil" /\ e.r.ok -> {<<e.m, "presentation", e.r.v>>}
      [] e.op = "list" /\ e.r.ok -> {<<e.m, "list", e.r.v>>}
      [] e.op = "tofile" /\ e.r.ok /\ e.stored.k = "a" -> {<<e.m, "encoding", e.stored>>}
      [] OTHER -> {}
(* <<s, memo, disk>> after the event e *)
Following(e) ==
    << IF e.op = "adopt" THEN (IF e.stored.k = "a" THEN Received(s, e.stored.a) ELSE s) ELSE After(s, e),
       IF e.op \in Looking THEN memo \cup Remember(e) ELSE {},
       IF e.op = "reset" THEN [f \in Files |-> Nothing]
       ELSE IF e.op = "tofile" /\ e.r.ok THEN [disk EXCEPT ![e.f] = e.stored]
       ELSE disk >>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               n == Following(e)
           IN Report(l, Judge(s, e)) /\ s' = n[1] /\ memo' = n[2] /\ disk' = n[3]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, memo, disk>>
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
