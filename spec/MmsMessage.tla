------------------------------ MODULE MmsMessage ------------------------------
(***************************************************************************)
(* The objects a user composes an MMS from, as a state machine.            *)
(*                                                                         *)
(* State (a record; identifiers are positions):                            *)
(*   files   [name, type, data]: media files, type guessed from the name   *)
(*   parts   [ct |-> [media, params], hdrs, data]: data parts              *)
(*   pages   [img, aud, txt: sequences of at most one [part, b, e], dur]   *)
(*   away    whether the files are out of reach at the moment; what was   *)
(*           loaded from them is then shown as it was, or not at all      *)
(*   msgs    [hdrs, ct, pages, parts, w, h]: messages; pages and parts     *)
(*           are identifiers, so that a page changed after it was added    *)
(*           changes the message                                           *)
(* hdrs and params are sequences of <<name, value>> with distinct names.   *)
(*                                                                         *)
(* Transitions: Step(s, e) for the calls that change something (Refuses    *)
(* tells which exceptions a call may raise instead).  What encoding, the   *)
(* presentation and the list of parts must be in a state is said by        *)
(* HeaderClauses, BodyClauses, ListClauses and SmilClauses.                *)
(***************************************************************************)
EXTENDS Mms

Related     == Codes("application/vnd.wap.multipart.related")
OctetStream == Codes("application/octet-stream")
TextPlain   == Codes("text/plain")
SmilType    == Codes("application/smil")
ContentLocation == Codes("Content-Location")
ContentID   == Codes("Content-ID")
CT(m, ps)   == [media |-> m, params |-> [j \in 1..Len(ps) |-> <<Str(ps[j][1]), ps[j][2]>>]]

(* ---- dictionaries ------------------------------------------------------- *)
HasKey(q, name) == \E j \in 1..Len(q) : q[j][1] = name
Get(q, name)    == q[CHOOSE j \in 1..Len(q) : q[j][1] = name][2]
Drop(q, name)   == SelectSeq(q, LAMBDA x : x[1] # name)
Put(q, name, v) == Append(Drop(q, name), <<name, v>>)

(* ---- states --------------------------------------------------------------- *)
NoWorld == [files |-> <<>>, parts |-> <<>>, pages |-> <<>>, msgs |-> <<>>, away |-> FALSE]
NewPart == [ct |-> CT(OctetStream, <<>>), hdrs |-> <<>>, data |-> <<>>]
FilePart(f) == [ct |-> CT(f.type, <<>>), hdrs |-> << <<ContentLocation, Str(f.name)>> >>,
                data |-> f.data]
DataPart(d, m, ps) == [ct |-> CT(m, ps), hdrs |-> <<>>, data |-> d]
NewPage == [img |-> <<>>, aud |-> <<>>, txt |-> <<>>, dur |-> 4000]
NewMsg(hdrs, ct) == [hdrs |-> hdrs, ct |-> ct, pages |-> <<>>, parts |-> <<>>, w |-> 176, h |-> 220]

(* ---- calls that may be refused --------------------------------------------- *)
IsInt(v) == v.k = "i"
TimeErrors(b, e) ==
    IF ~IsInt(b) \/ ~IsInt(e) THEN {"TypeError"}
    ELSE IF e.v > 0 /\ e.v < b.v THEN {"ValueError"} ELSE {}
FileErrors(a) == CASE a.k = "file" -> {} [] a.k = "missing" -> {"OSError"} [] OTHER -> {"TypeError"}
Refuses(s, e) ==
    CASE e.op \in {"image", "audio"} -> FileErrors(e.arg) \cup TimeErrors(e.b, e.e)
      [] e.op = "text" -> (IF e.arg.k = "s" THEN {} ELSE {"TypeError"}) \cup TimeErrors(e.b, e.e)
      [] e.op = "duration" -> IF ~IsInt(e.v) THEN {"TypeError"}
                              ELSE IF e.v.v < 1 THEN {"ValueError"} ELSE {}
      [] e.op \in {"load", "part"} -> FileErrors(e.arg) \ {"TypeError"}
      [] OTHER -> {}
OutcomeOf(s, e) ==
    LET x == Refuses(s, e)
    IN IF x = {} THEN Chk("accepted", e.r.ok)
       ELSE Chk("refused", \E n \in x : FailsWith(e.r, n))

(* ---- transitions ------------------------------------------------------------- *)
Item(part, e) == << [part |-> part, b |-> e.b.v, e |-> e.e.v] >>
OnItem(pg, which, F(_)) ==
    LET G(q) == IF q = <<>> THEN q ELSE << [q[1] EXCEPT !.part = F(@)] >>
    IN CASE which = "img" -> [pg EXCEPT !.img = G(@)]
         [] which = "aud" -> [pg EXCEPT !.aud = G(@)]
         [] which = "txt" -> [pg EXCEPT !.txt = G(@)]
(* the message a PDU stands for *)
Received(st, o) ==
    LET p == Message(o)
        hs == SelectSeq(p.v.hdrs, LAMBDA x : x.name # CTName)
        n == Len(st.parts)
        k == Len(p.v.parts)
    IN IF ~Is(p, "ok") THEN [st EXCEPT !.msgs = Append(@, NewMsg(<<>>, CT(OctetStream, <<>>)))]
       ELSE [st EXCEPT
         !.parts = @ \o [j \in 1..k |-> [ct |-> p.v.parts[j].ct, data |-> p.v.parts[j].data,
                           hdrs |-> [i \in 1..Len(p.v.parts[j].hdrs) |->
                                       <<p.v.parts[j].hdrs[i][1].c, p.v.parts[j].hdrs[i][2]>>]]],
         !.msgs = Append(@, [NewMsg([j \in 1..Len(hs) |-> <<hs[j].name, hs[j].v>>], CT(OctetStream, <<>>))
                              EXCEPT !.ct = Last_(p.v.hdrs).v, !.parts = [j \in 1..k |-> n + j]])]
Step(s, e) ==
    CASE e.op = "file"     -> [s EXCEPT !.files = Append(@, [name |-> e.name, type |-> e.type,
                                                             data |-> e.data])]
      [] e.op = "part"     -> [s EXCEPT !.parts = Append(@, IF e.arg.k = "file"
                                                            THEN FilePart(s.files[e.arg.f]) ELSE NewPart)]
      [] e.op = "page"     -> [s EXCEPT !.pages = Append(@, NewPage)]
      [] e.op = "msg"      -> [s EXCEPT !.msgs = Append(@, NewMsg(e.hdrs, CT(e.ct.media, e.ct.params)))]
      [] e.op = "load"     -> [s EXCEPT !.parts[e.d] = FilePart(s.files[e.arg.f])]
      [] e.op = "data"     -> [s EXCEPT !.parts[e.d] = DataPart(e.data, e.media, e.params)]
      [] e.op = "ptext"    -> [s EXCEPT !.parts[e.d] = DataPart(e.data, TextPlain, <<>>)]
      [] e.op = "ctype"    -> [s EXCEPT !.parts[e.d].ct = CT(e.media, <<>>)]
      [] e.op = "phdr"     -> [s EXCEPT !.parts[e.d].hdrs = Put(@, e.name, e.v)]
      [] e.op = "image"    -> [s EXCEPT !.pages[e.p].img = Item(FilePart(s.files[e.arg.f]), e)]
      [] e.op = "audio"    -> [s EXCEPT !.pages[e.p].aud = Item(FilePart(s.files[e.arg.f]), e)]
      [] e.op = "text"     -> [s EXCEPT !.pages[e.p].txt = Item(DataPart(e.arg.c, TextPlain, <<>>), e)]
      [] e.op = "duration" -> [s EXCEPT !.pages[e.p].dur = e.v.v]
      [] e.op = "itemhdr"  -> [s EXCEPT !.pages[e.p] = OnItem(@, e.which, LAMBDA x :
                                 [x EXCEPT !.hdrs = Put(@, e.name, e.v)])]
      [] e.op = "itemdrop" -> [s EXCEPT !.pages[e.p] = OnItem(@, e.which, LAMBDA x :
                                 [x EXCEPT !.hdrs = Drop(@, e.name)])]
      [] e.op = "sethdr"   -> [s EXCEPT !.msgs[e.m].hdrs = Put(@, e.name, e.v)]
      [] e.op = "delhdr"   -> [s EXCEPT !.msgs[e.m].hdrs = Drop(@, e.name)]
      [] e.op = "setct"    -> [s EXCEPT !.msgs[e.m].ct = CT(e.media, e.params)]
      [] e.op = "addpage"  -> [s EXCEPT !.msgs[e.m].pages = Append(@, e.p),
                                        !.msgs[e.m].ct = IF @.media = Related THEN @
                                                         ELSE CT(Related, <<>>)]
      [] e.op = "addpart"  -> [s EXCEPT !.msgs[e.m].parts = Append(@, e.d)]
      [] e.op = "receive"  -> IF e.r.ok THEN Received(s, e.o) ELSE s
      [] e.op = "away"     -> [s EXCEPT !.away = TRUE]
      [] e.op = "back"     -> [s EXCEPT !.away = FALSE]
      [] e.op = "size"     -> [s EXCEPT !.msgs[e.m].w = e.w, !.msgs[e.m].h = e.h]
      [] OTHER             -> s
(* a refused call changes nothing, except that nothing was made *)
After(s, e) == IF e.op = "reset" THEN NoWorld
               ELSE IF Refuses(s, e) # {} THEN s ELSE Step(s, e)

(* ---- what a part and a page look like ------------------------------------------ *)
(* an observed part shows the part q                                        *)
PartLooks(v, q) ==
    Chk("part-data", v.data = q.data)
    \cup Chk("part-length", v.len = Len(q.data))
    \cup Chk("part-content-type", IsContentType(Lookup(v.headers, CTName), q.ct))
    \cup Chk("part-headers", /\ Len(v.headers) = Len(q.hdrs) + 1
                             /\ \A j \in 1..Len(q.hdrs) :
                                    Lookup(v.headers, q.hdrs[j][1]) = q.hdrs[j][2])
ItemLooks(name, v, q) ==     \* v: sequence of at most one observed [part, b, e]
    IF Len(v) # Len(q) THEN {name}
    ELSE IF q = <<>> THEN {}
    ELSE Chk(name, PartLooks(v[1].part, q[1].part) = {}
                   /\ v[1].b = Int_(q[1].b) /\ v[1].e = Int_(q[1].e))
PageLooks(v, q) ==
    ItemLooks("image", v.img, q.img) \cup ItemLooks("audio", v.aud, q.aud)
    \cup ItemLooks("text", v.txt, q.txt)
    \cup Chk("duration", v.dur = Int_(q.dur))
    \cup Chk("list-of-parts", v.list = v.img \o v.aud \o v.txt)
    \cup Chk("number-of-parts", v.n = Int_(Len(q.img) + Len(q.aud) + Len(q.txt)))

(* ---- the headers of an encoded message -------------------------------------------- *)
MType == Codes("Message-Type")
TransactionId == Codes("Transaction-Id")
MVersion == Codes("MMS-Version")
Prefixed == << <<Codes("X-Mms-Message-Type"), MType>>,
               <<Codes("X-Mms-Transaction-Id"), TransactionId>>,
               <<Codes("X-Mms-Version"), MVersion>> >>
Replace(q, j) == IF HasKey(q, Prefixed[j][1])
                 THEN Drop(Put(q, Prefixed[j][2], Get(q, Prefixed[j][1])), Prefixed[j][1])
                 ELSE q
Unprefixed(q) == Replace(Replace(Replace(q, 1), 2), 3)
SendReq == Str(Codes("m-send-req"))
RetrieveConf == Str(Codes("m-retrieve-conf"))
HasDestination(q) == \E n \in {Codes("To"), Codes("Cc"), Codes("Bcc")} : HasKey(q, n)
TypeOf(q) == IF ~HasKey(q, MType) THEN RetrieveConf
             ELSE IF Get(q, MType) = SendReq /\ ~HasDestination(q) THEN RetrieveConf
             ELSE Get(q, MType)
FromName == Codes("From")
Sent(q) ==      \* the transaction id is left out when it is for the encoder to choose
    LET a == Unprefixed(q)
        b == Put(a, MType, TypeOf(a))
        c == IF HasKey(b, MVersion) THEN b ELSE Put(b, MVersion, Str(Codes("1.0")))
    IN IF HasKey(c, FromName) /\ Get(c, FromName) = Str(<<>>)
       THEN Put(c, FromName, Str(NotInserted)) ELSE c
SameCT(a, b) == a.media = b.media /\ Len(a.params) = Len(b.params) /\ Elems(a.params) = Elems(b.params)
(* p = Message(octets), ok *)
HeaderClauses(m, p) ==
    LET hs == p.v.hdrs
        n  == Len(hs)
        q  == Sent(m.hdrs)
        own == {<<hs[j].name, hs[j].v>> : j \in {i \in 1..n : hs[i].name # CTName
                        /\ (hs[i].name = TransactionId => HasKey(q, TransactionId))}}
    IN Chk("first-three", n >= 4 /\ <<hs[1].name, hs[2].name, hs[3].name>>
                                    = <<MType, TransactionId, MVersion>>)
       \cup Chk("content-type-last", n > 0 /\ hs[n].name = CTName)
       \cup Chk("each-once", Once(hs))
       \cup Chk("headers", own = Elems(q))
       \cup Chk("field-numbers", \A j \in 1..n : hs[j].wk <=> MmsNumber(hs[j].name) > 0)
       \cup Chk("content-type", IF n = 0 THEN FALSE
                                ELSE IF hs[n].name # CTName THEN FALSE ELSE SameCT(hs[n].v, m.ct))
(* v: the observed headers of the decoded message *)
HeadersShown(v, p) ==
    LET hs == p.v.hdrs
    IN Chk("decoded-headers", Len(v) = Len(hs) /\ \A j \in 1..Len(hs) : Shows(Lookup(v, hs[j].name), hs[j]))

(* ---- its body ------------------------------------------------------------------------ *)
PagePartsOf(pg) == [j \in 1..Len(pg.img \o pg.aud \o pg.txt) |-> (pg.img \o pg.aud \o pg.txt)[j].part]
RECURSIVE PagesParts(_, _)
PagesParts(s, ids) == IF ids = <<>> THEN <<>>
                      ELSE PagePartsOf(s.pages[Head(ids)]) \o PagesParts(s, Tail(ids))
ContentParts(s, m) == PagesParts(s, m.pages) \o [j \in 1..Len(m.parts) |-> s.parts[m.parts[j]]]
Presentation(doc) == [ct |-> CT(SmilType, <<>>), hdrs |-> << <<ContentID, Str(Codes("<0000>"))>> >>,
                      data |-> doc]
(* q parsed, x expected *)
PartIs(q, x) ==
    Chk("part-data", q.data = x.data)
    \cup Chk("part-content-type", SameCT(q.ct, x.ct))
    \cup Chk("part-headers", q.known /\ Len(q.hdrs) = Len(x.hdrs)
                             /\ {<<q.hdrs[j][1].c, q.hdrs[j][2]>> : j \in 1..Len(q.hdrs)} = Elems(x.hdrs))
BodyClauses(s, m, doc, p) ==
    LET xs == <<Presentation(doc)>> \o ContentParts(s, m)
        qs == p.v.parts
    IN IF Len(xs) # Len(qs) THEN {"number-of-parts"}
       ELSE UNION {PartIs(qs[j], xs[j]) : j \in 1..Len(xs)}
(* vs: the observed parts of the decoded message *)
PartsShown(vs, p) ==
    IF Len(vs) # Len(p.v.parts) THEN {"decoded-parts"}
    ELSE UNION {PartShows(vs[j], p.v.parts[j]) : j \in 1..Len(vs)}
(* vs: the observed list of the parts of a message *)
ListClauses(s, m, doc, vs) ==
    LET xs == ContentParts(s, m)
        n  == IF m.pages = <<>> THEN 0 ELSE 1
    IN IF Len(vs) # Len(xs) + n THEN {"list-length"}
       ELSE (IF n = 0 THEN {}
             ELSE Chk("list-presentation",
                      /\ vs[1].data = doc /\ vs[1].len = Len(doc)
                      /\ IsContentType(Lookup(vs[1].headers, CTName), CT(SmilType, <<>>))))
            \cup UNION {PartLooks(vs[j + n], xs[j]) : j \in 1..Len(xs)}

(* ---- the presentation --------------------------------------------------------------------- *)
(* what a reader of XML makes of the text of an attribute *)
Blank(c) == IF c \in {9, 10, 13} THEN 32 ELSE c
Normal(c) == LET J == SelectSeq([j \in 1..Len(c) |-> j],
                                LAMBDA j : ~(c[j] = 10 /\ j > 1 /\ c[Max2(j - 1, 1)] = 13))
             IN [k \in 1..Len(J) |-> Blank(c[J[k]])]
RECURSIVE DecimalText(_)
DecimalText(n) == IF n < 0 THEN <<45>> \o DecimalText(0 - n)
                  ELSE IF n < 10 THEN <<48 + n>> ELSE Append(DecimalText(n \div 10), 48 + (n % 10))
SrcOf(part) == IF HasKey(part.hdrs, ContentLocation) THEN Get(part.hdrs, ContentLocation).c
               ELSE IF HasKey(part.hdrs, ContentID) THEN Get(part.hdrs, ContentID).c
               ELSE part.data
Element(tag, src, region, it, dur) ==
    LET timed == it.b > 0 \/ it.e > 0
        end == IF it.e <= 0 \/ it.e > dur THEN dur ELSE it.e
    IN [tag |-> Codes(tag), src |-> Str(Normal(src)),
        region |-> IF region = "" THEN None ELSE Str(Codes(region)),
        begin |-> IF timed THEN Str(DecimalText(it.b)) ELSE None,
        end |-> IF timed THEN Str(DecimalText(end)) ELSE None]
Elements(pg) ==
    (IF pg.img = <<>> THEN {} ELSE {Element("img", SrcOf(pg.img[1].part), "Image", pg.img[1], pg.dur)})
    \cup (IF pg.txt = <<>> THEN {} ELSE {Element("text", pg.txt[1].part.data, "Text", pg.txt[1], pg.dur)})
    \cup (IF pg.aud = <<>> THEN {} ELSE {Element("audio", SrcOf(pg.aud[1].part), "", pg.aud[1], pg.dur)})
(* boxes: left, top, width, height                                          *)
Within(b, w, h) == b[1] >= 0 /\ b[2] >= 0 /\ b[3] > 0 /\ b[4] > 0 /\ b[1] + b[3] <= w /\ b[2] + b[4] <= h
Apart(a, b) == \/ a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1] \/ a[2] + a[4] <= b[2] \/ b[2] + b[4] <= a[2]
(* d: the document as an independent reader of XML sees it *)
SmilClauses(s, m, d) ==
    Chk("root", d.root = Codes("smil"))
    \cup Chk("layout", d.w = Str(DecimalText(m.w)) /\ d.h = Str(DecimalText(m.h)))
    \cup Chk("regions", \A j \in 1..Len(d.pars) : \A k \in 1..Len(d.pars[j].items) :
                LET r == d.pars[j].items[k].region
                IN r = None \/ \E i \in 1..Len(d.regions) : d.regions[i].id = r)
    \cup Chk("region-names", \A i, k \in 1..Len(d.regions) : i # k => d.regions[i].id # d.regions[k].id)
    \cup (IF m.w # 176 \/ m.h # 220 THEN {}
          ELSE Chk("regions-within-the-layout", \A i \in 1..Len(d.regions) :
                      Within(d.regions[i].box, m.w, m.h)
                      /\ \A k \in 1..Len(d.regions) : i # k => Apart(d.regions[i].box, d.regions[k].box)))
    \cup (IF Len(d.pars) # Len(m.pages) THEN {"pages"}
          ELSE UNION {LET pg == s.pages[m.pages[j]]
                          q  == d.pars[j]
                      IN Chk("page-duration", q.dur = Str(DecimalText(pg.dur)))
                         \cup Chk("page-items", /\ Len(q.items) = Cardinality(Elements(pg))
                                                /\ Elems(q.items) = Elements(pg))
                      : j \in 1..Len(m.pages)})

(* ---- events that look ------------------------------------------------------------------------- *)
Encoded(e) == Message(e.r.v.a)
Outcome(s, e) == IF e.op \in {"reset", "file", "page", "msg", "enc", "smil", "list", "look", "lookpart",
                           "away", "back"}
                 THEN {} ELSE OutcomeOf(s, e)
EncClauses(s, e, which) ==
    LET p == Encoded(e)
        m == s.msgs[e.m]
    IN IF ~e.r.ok THEN {"encoded"}
       ELSE IF ~Is(p, "ok") THEN {"well-formed"}
       ELSE IF ~e.seen.ok THEN {"decoded"}
       ELSE (IF "headers" \in which
             THEN HeaderClauses(m, p) \cup HeadersShown(e.seen.v.headers, p) ELSE {})
            \cup (IF "body" \in which
                  THEN Chk("nothing-after", p.n = Len(e.r.v.a) + 1)
                       \cup BodyClauses(s, m, e.doc, p) \cup PartsShown(e.seen.v.parts, p) ELSE {})
(* what an event must be in the state s; which: the kinds of looks to judge  *)
Looks == {"enc", "list", "smil", "look", "lookpart", "lookmsg", "tofile"}
OutOfReach(s, e) == s.away /\ (IF e.op \in Looks THEN ~e.r.ok ELSE FALSE)
Clauses(s, e, which) ==
    CASE OutOfReach(s, e) -> {}
      [] e.op = "enc"  -> EncClauses(s, e, which)
      [] e.op = "list" -> IF e.r.ok THEN ListClauses(s, s.msgs[e.m], e.doc, e.r.v) ELSE {"list"}
      [] e.op = "smil" -> IF ~e.r.ok THEN {"presentation"}
                          ELSE IF ~e.dom.ok THEN {"well-formed-xml"}
                          ELSE SmilClauses(s, s.msgs[e.m], e.dom.v)
      [] e.op = "look" -> IF e.r.ok THEN PageLooks(e.r.v, s.pages[e.p]) ELSE {"page"}
      [] e.op = "lookpart" -> IF e.r.ok THEN PartLooks(e.r.v, s.parts[e.d]) ELSE {"part"}
      [] OTHER -> Outcome(s, e)
=============================================================================
