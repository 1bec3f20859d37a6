------------------------------ MODULE LawsSmil -------------------------------
(***************************************************************************)
(* The clauses that judge a presentation determine it: the document made    *)
(* from pages by the words of the statement satisfies them, and a document  *)
(* with anything changed, dropped, doubled or exchanged does not.           *)
(***************************************************************************)
EXTENDS MmsMessage
CONSTANTS ITEMS, TIMES, DURATIONS, SIZES
VARIABLES m, what

(* ---- pages ----------------------------------------------------------------- *)
File(n) == CASE n = "named" -> FilePart([name |-> Codes("a.gif"), type |-> Codes("image/gif"), data |-> <<1>>])
             [] n = "id"    -> [NewPart EXCEPT !.hdrs = << <<ContentID, Str(Codes("<x>"))>> >>]
             [] n = "both"  -> [NewPart EXCEPT !.hdrs = << <<ContentID, Str(Codes("<x>"))>>, <<ContentLocation, Str(Codes("b.amr"))>> >>]
             [] n = "bare"  -> DataPart(Codes("data"), TextPlain, <<>>)
Times(t) == CASE t = "none" -> <<0, 0>> [] t = "begin" -> <<5, 0>> [] t = "end" -> <<0, 900>>
              [] t = "both" -> <<100, 200>> [] t = "late" -> <<10, 999999>>
It(n, t) == IF n = "no" THEN <<>> ELSE << [part |-> File(n), b |-> Times(t)[1], e |-> Times(t)[2]] >>
PageOf(x) == [img |-> It(x.img, x.t1), aud |-> It(x.aud, x.t2), txt |-> It(x.txt, x.t3), dur |-> x.dur]
Shapes == { [img |-> i, aud |-> a, txt |-> t, t1 |-> c, t2 |-> c, t3 |-> c, dur |-> d] :
            i \in ITEMS, a \in ITEMS, t \in {"no", "bare"}, c \in TIMES, d \in DURATIONS }
Second == [img |-> "named", aud |-> "no", txt |-> "bare", t1 |-> "both", t2 |-> "none", t3 |-> "none", dur |-> 4001]
State(x) == [NoWorld EXCEPT !.pages = <<PageOf(x), PageOf(Second)>>]
Msg_(x) == [NewMsg(<<>>, CT(Related, <<>>)) EXCEPT !.pages = IF x.two THEN <<1, 2>> ELSE <<1>>, !.w = x.w, !.h = x.h]

(* ---- their document ---------------------------------------------------------- *)
Attr(n) == Str(DecimalText(n))
Timed(q, dur) == IF q.b = 0 /\ q.e = 0 THEN <<None, None>>
                 ELSE <<Attr(q.b), Attr(IF q.e = 0 \/ q.e > dur THEN dur ELSE q.e)>>
Shown(tag, region, q, dur) ==
    [tag |-> Codes(tag), region |-> region, begin |-> Timed(q, dur)[1], end |-> Timed(q, dur)[2],
     src |-> IF tag = "text" THEN Str(q.part.data)
             ELSE IF HasKey(q.part.hdrs, ContentLocation) THEN Get(q.part.hdrs, ContentLocation)
             ELSE IF HasKey(q.part.hdrs, ContentID) THEN Get(q.part.hdrs, ContentID) ELSE Str(q.part.data)]
Items(pg) == (IF pg.img = <<>> THEN <<>> ELSE <<Shown("img", Str(Codes("Image")), pg.img[1], pg.dur)>>)
             \o (IF pg.txt = <<>> THEN <<>> ELSE <<Shown("text", Str(Codes("Text")), pg.txt[1], pg.dur)>>)
             \o (IF pg.aud = <<>> THEN <<>> ELSE <<Shown("audio", None, pg.aud[1], pg.dur)>>)
Document(x) ==
    LET s == State(x)
    IN [root |-> Codes("smil"), w |-> Attr(x.w), h |-> Attr(x.h),
        regions |-> << [id |-> Str(Codes("Image")), box |-> <<0, 0, 176, 144>>],
                       [id |-> Str(Codes("Text")), box |-> <<0, 144, 176, 76>>] >>,
        pars |-> [j \in 1..Len(Msg_(x).pages) |-> [dur |-> Attr(s.pages[j].dur), items |-> Items(s.pages[j])]]]
(* ---- what may happen to it ------------------------------------------------------ *)
Differ(v) == IF v.k = "s" THEN Str(Append(v.c, 48)) ELSE Str(<<48>>)
Changed(d, w) ==
    LET j == w[2]
        k == w[3]
    IN CASE w[1] = "root"   -> [d EXCEPT !.root = <<>>]
         [] w[1] = "w"      -> [d EXCEPT !.w = Differ(@)]
         [] w[1] = "h"      -> [d EXCEPT !.h = Differ(@)]
         [] w[1] = "dur"    -> [d EXCEPT !.pars[j].dur = Differ(@)]
         [] w[1] = "tag"    -> [d EXCEPT !.pars[j].items[k].tag = Append(@, 48)]
         [] w[1] \in {"region", "begin", "end", "src"} -> [d EXCEPT !.pars[j].items[k][w[1]] = Differ(@)]
         [] w[1] \in {"-region", "-begin", "-end"} ->
              LET f == CASE w[1] = "-region" -> "region" [] w[1] = "-begin" -> "begin" [] OTHER -> "end"
              IN [d EXCEPT !.pars[j].items[k][f] = None]
         [] w[1] = "drop"   -> [d EXCEPT !.pars[j].items = Tail(@)]
         [] w[1] = "again"  -> [d EXCEPT !.pars[j].items = Append(@, @[k])]
         [] w[1] = "-par"   -> [d EXCEPT !.pars = Front(@)]
         [] w[1] = "par"    -> [d EXCEPT !.pars = Append(@, @[j])]
         [] w[1] = "swap"   -> [d EXCEPT !.pars = <<@[2], @[1]>>]
         [] w[1] = "-area"  -> [d EXCEPT !.regions = SelectSeq(@, LAMBDA r : r.id # d.regions[k].id)]
         [] w[1] = "area"   -> [d EXCEPT !.regions = Append(@, @[k])]
         [] w[1] = "left"   -> [d EXCEPT !.regions[k].box[1] = @ + 1]
         [] w[1] = "up"     -> [d EXCEPT !.regions[2].box[2] = @ - 1]
         [] w[1] = "high"   -> [d EXCEPT !.regions[k].box[4] = @ + 1]
Changes(d) ==
    {<<"root", 0, 0>>, <<"w", 0, 0>>, <<"h", 0, 0>>, <<"-par", 0, 0>>, <<"par", 1, 0>>}
    \cup (IF Len(d.pars) = 2 THEN {<<"swap", 0, 0>>} ELSE {})
    \cup {<<"dur", j, 0>> : j \in 1..Len(d.pars)}
    \cup UNION {UNION {{<<c, j, k>> : c \in {"tag", "region", "begin", "end", "src", "again", "drop"}
                                      \cup (IF d.pars[j].items[k].region = None THEN {} ELSE {"-region"})
                                      \cup (IF d.pars[j].items[k].begin = None THEN {} ELSE {"-begin", "-end"})}
                       : k \in 1..Len(d.pars[j].items)} : j \in 1..Len(d.pars)}
    \cup {<<"-area", 0, k>> : k \in {i \in 1..2 : \E j \in 1..Len(d.pars) : \E n \in 1..Len(d.pars[j].items) :
                                        d.pars[j].items[n].region = d.regions[i].id}}
    \cup {<<"area", 0, 1>>, <<"area", 0, 2>>}
    \cup (IF d.w = Attr(176) /\ d.h = Attr(220) THEN {<<"left", 0, 1>>, <<"left", 0, 2>>, <<"up", 0, 0>>, <<"high", 0, 1>>, <<"high", 0, 2>>} ELSE {})

Init == /\ what = <<"none", 0, 0>>
        /\ m \in { [img |-> p.img, aud |-> p.aud, txt |-> p.txt, t1 |-> p.t1, t2 |-> p.t2, t3 |-> p.t3, dur |-> p.dur,
                    two |-> b, w |-> z[1], h |-> z[2]] : p \in Shapes, b \in BOOLEAN,
                    z \in {IF y = "small" THEN <<96, 65>> ELSE <<176, 220>> : y \in SIZES} }
Next == /\ what[1] = "none" /\ what' \in Changes(Document(m)) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, what>>
Satisfied == what[1] = "none" => SmilClauses(State(m), Msg_(m), Document(m)) = {}
Determined == what[1] # "none" => \/ Changed(Document(m), what) = Document(m)
                                  \/ SmilClauses(State(m), Msg_(m), Changed(Document(m), what)) # {}
=============================================================================
