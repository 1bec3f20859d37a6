-------------------------------- MODULE C16 --------------------------------
(* Content types with parameters, encoded and decoded again.               *)
EXTENDS ContentTypes
VARIABLE l
Judge(e) ==
    IF e.op = "encp" THEN
        (LET p == ParamEncoding(e.name, e.v, e.ver)
         IN IF Is(p, "any") THEN {}
            ELSE IF Is(p, "no") THEN Chk("parameter-not-refused", FailsWith(e.r, "EncodeError"))
            ELSE IF Is(p, "fails") THEN Chk("parameter-not-refused", ~e.r.ok)
            ELSE Chk("parameter-octets", Gives(e.r, Arr(p.o))))
    ELSE IF e.op = "decp" THEN
        (LET p == ParamIn(e.ver, e.s, 1)
         IN IF Is(p, "no") THEN Chk("unassigned-parameter-not-refused", FailsWith(e.r, "DecodeError"))
                                \cup Chk("refused-parameter-consumed", e.rest = e.s)
            ELSE IF ~Is(p, "ok") THEN {}
            ELSE Chk("parameter-name", Gives(e.r, Str(p.name)))
                 \cup (IF Is(p.p, "ok") THEN Chk("parameter-value", Gives(e.r2, p.p.v))
                                             \cup Chk("following-octets", e.rest = Sub(e.s, p.p.n, Len(e.s)))
                       ELSE {}))
    ELSE IF e.op = "names" THEN
        (IF e.ver \notin 1..4 THEN Chk("version-not-refused", FailsWith(e.r, "ValueError"))
         ELSE IF e.f = "fields" THEN
              Chk("field-numbers", Gives(e.r, [k |-> "l", l |-> [j \in 1..Len(FieldsIn(e.ver)) |->
                                                               Str(FieldsIn(e.ver)[j])]]))
         ELSE Chk("parameter-numbers", Gives(e.r, [k |-> "l", l |-> [j \in 1..Len(ParamsIn(e.ver)) |->
                     Tup(<<Num(OctetsOf(ParamsIn(e.ver)[j][1])), Str(ParamsIn(e.ver)[j][2])>>)]])))
    ELSE IF ~e.r.ok THEN {"refused"}
    ELSE IF e.op = "enc" THEN
        (IF e.r.v.k # "a" THEN {"not-octets"} ELSE ContentTypeClauses(e.r.v.a, e.media, e.params))
    ELSE LET p == ContentType(e.s, 1)
         IN Chk("read-back", IsContentType(e.r.v, [media |-> e.media, params |-> AsPairs(e.params)]))
            \cup (IF Is(p, "ok") THEN Chk("following-octets", e.rest = Sub(e.s, p.n, Len(e.s))) ELSE {})
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
