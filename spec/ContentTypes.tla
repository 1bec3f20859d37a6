---------------------------- MODULE ContentTypes ----------------------------
(* What the encoder makes of content types with parameters.                *)
EXTENDS Decoders
Join2(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)
MediaOf(c) == LET k == MediaNumber(c) IN IF k >= 0 THEN ShortOf(k) ELSE c \o <<0>>
TypedOf(kind, v) ==
    CASE kind = "version"     -> VersionOf(v.c)
      [] kind = "text"        -> TextOf(v.c)
      [] kind = "short" /\ v.k = "n" -> ShortOf(Small(v.n))
      [] kind = "constrained" -> IF v.k = "n" THEN ShortOf(Small(v.n)) ELSE v.c \o <<0>>
      [] OTHER                -> <<-1>>          \* nothing the library writes
UntypedOf(v) == IF v.k = "n" THEN IntegerOf(v.n)
                ELSE IF IsToken(v.c) THEN v.c \o <<0>>
                ELSE <<34>> \o v.c \o <<0>>
Greatest(name) == CHOOSE r \in 1..Len(ParamTable) :
                    /\ ParamTable[r][2] = name
                    /\ \A q \in (r + 1)..Len(ParamTable) : ParamTable[q][2] # name
(* q = <<name, value>> *)
ParamOf(q) == IF q[1] \in ParamNames
              THEN LET row == ParamTable[Greatest(q[1])]
                   IN ShortOf(row[1]) \o TypedOf(row[3], q[2])
              ELSE q[1] \o <<0>> \o UntypedOf(q[2])
AsPairs(ps) == [j \in 1..Len(ps) |-> <<Str(ps[j][1]), ps[j][2]>>]
(* o encodes the media type m with the parameters ps (in whatever order)    *)
ContentTypeClauses(o, m, ps) ==
    LET p == ContentType(o, 1)
        body == Join2(<<MediaOf(m)>> \o [j \in 1..Len(p.v.params) |->
                                          ParamOf(<<p.v.params[j][1].c, p.v.params[j][2]>>)])
    IN IF ~Is(p, "ok") THEN {"not-well-formed"}
       ELSE Chk("length", p.n = Len(o) + 1)
            \cup Chk("media-type", p.v.media = m)
            \cup Chk("parameters", /\ Elems(p.v.params) = Elems(AsPairs(ps))
                                   /\ Len(p.v.params) = Len(ps))
            \cup (IF ps = <<>> THEN Chk("short-form", o = MediaOf(m))
                  ELSE Chk("assigned-numbers", o = ValueLengthOf(Len(body)) \o body))
(* ---- single parameters, in encoding version 1.ver ------------------------- *)
Refused == [st |-> "no"]
Raises == [st |-> "fails"]          \* with whatever exception
Made(o) == [st |-> "ok", o |-> o]
IsOctets(c) == \A j \in 1..Len(c) : c[j] \in 1..255
TextValueOf(c) == IF c = <<>> THEN <<0>> ELSE IF IsToken(c) THEN c \o <<0>> ELSE <<34>> \o c \o <<0>>
ValueOf(kind, v) ==
    CASE kind = "version" -> (IF v.k # "s" THEN Undef ELSE IF ~IsOctets(v.c) THEN Raises
                            ELSE IF IsText(v.c) THEN Made(VersionOf(v.c)) ELSE Undef)
      [] kind \in {"text", "textvalue"} ->
           (IF v.k # "s" THEN Undef
            ELSE IF ~IsOctets(v.c) THEN Refused
            ELSE IF ~IsText(v.c) THEN Undef
            ELSE Made(IF kind = "text" THEN TextOf(v.c) ELSE TextValueOf(v.c)))
      [] kind = "short" -> (IF v.k = "n" /\ IsShort(v.n) THEN Made(ShortOf(Small(v.n)))
                            ELSE IF v.k \in {"n", "neg"} THEN Refused ELSE Undef)
      [] kind = "integer" -> (IF v.k = "n" /\ Len(v.n) <= 30 THEN Made(IntegerOf(v.n)) ELSE Refused)
      [] kind = "constrained" ->
           (IF v.k = "n" THEN (IF IsShort(v.n) THEN Made(ShortOf(Small(v.n))) ELSE Refused)
            ELSE IF v.k = "neg" THEN Refused
            ELSE IF v.k # "s" THEN Undef
            ELSE IF ~IsOctets(v.c) THEN Raises
            ELSE IF v.c = <<>> THEN Refused
            ELSE IF v.c[1] < 32 \/ v.c[1] = 127 THEN Refused
            ELSE IF IsText(v.c) THEN Made(v.c \o <<0>>) ELSE Undef)
      [] kind = "none" -> Made(<<0>>)
      [] kind = "untyped" ->
           (IF v.k = "n" /\ Len(v.n) <= 30 THEN Made(IntegerOf(v.n))
            ELSE IF v.k # "s" THEN Undef
            ELSE IF ~IsOctets(v.c) THEN Refused
            ELSE IF IsText(v.c) THEN Made(UntypedOf(v)) ELSE Undef)
      [] OTHER -> Undef                 \* the library has no encoder for them
MaxOf(set) == CHOOSE m \in set : \A n \in set : n <= m
RowsNamed(table, name) == {r \in 1..Len(table) : table[r][2] = name}
ParamEncoding(name, v, ver) ==
    LET table == ParamsIn(ver)
        rows == RowsNamed(table, name)
        row == table[MaxOf(rows)]
        p == ValueOf(IF rows = {} THEN "untyped" ELSE row[3], v)
    IN IF rows = {} /\ ~IsToken(name) THEN Refused
       ELSE IF ~Is(p, "ok") THEN p
       ELSE Made((IF rows = {} THEN name \o <<0>> ELSE ShortOf(row[1])) \o p.o)
MoreKinds(kind, s, i) ==
    CASE kind = "delta"     -> Integer(s, i)
      [] kind = "date"      -> DateValue(s, i)
      [] kind = "none"      -> (LET p == NoValue(s, i) IN IF Is(p, "ok") THEN Ok(Num(<<>>), p.n) ELSE p)
      [] kind = "textvalue" -> TextValue(s, i)
      [] OTHER              -> ByKind(kind, s, i)
(* the name of a parameter in that version, and its value *)
ParamIn(ver, s, i) ==
    LET n == Integer(s, i)
        table == ParamsIn(ver)
        rows == {r \in 1..Len(table) : table[r][1] = Small(n.v.n)}
        row == table[MaxOf(rows)]
        p == MoreKinds(row[3], s, n.n)
    IN IF ~Is(n, "ok") THEN n
       ELSE IF Len(n.v.n) > 1 THEN No
       ELSE IF rows = {} THEN No
       ELSE [st |-> "ok", name |-> row[2], p |-> p]
=============================================================================
