------------------------------ MODULE PreviewMC ------------------------------
(* The iterator as it is built - a source, a cache and an offset into the   *)
(* cache - refines the abstract one: every result, and the mapped state.    *)
EXTENDS Preview, FiniteSets, TLC, Json, IOUtils
CONSTANT MAXLEN
DEPTH == atoi(IOEnv.DEPTH)
VARIABLES src, cache, pos,      \* the implementation
          abs,                  \* the abstract iterator
          same,                 \* the results agreed
          items, h
vars == <<src, cache, pos, abs, same, items, h>>
STOP == -1
Init == \E n \in 0..MAXLEN :
          /\ items = [i \in 1..n |-> i]
          /\ src = items /\ cache = <<>> /\ pos = 0
          /\ abs = Fresh(items) /\ same = TRUE /\ h = <<>>
Step(c) == Len(h) < DEPTH /\ h' = Append(h, c) /\ UNCHANGED items
(* next resets the offset first, whether or not it stops *)
DoNext ==
    /\ Step("n")
    /\ LET r == IF cache # <<>> THEN Head(cache) ELSE IF src # <<>> THEN Head(src) ELSE STOP
       IN same' = (r = IF AtEnd(abs) THEN STOP ELSE NextItem(abs))
    /\ pos' = 0
    /\ cache' = IF cache # <<>> THEN Tail(cache) ELSE cache
    /\ src' = IF cache = <<>> /\ src # <<>> THEN Tail(src) ELSE src
    /\ abs' = AfterNext(abs)
DoLook ==
    /\ Step("p")
    /\ LET r == IF pos < Len(cache) THEN cache[pos + 1] ELSE IF src # <<>> THEN Head(src) ELSE STOP
       IN same' = (r = IF LookEnd(abs) THEN STOP ELSE LookItem(abs))
    /\ IF pos < Len(cache) THEN pos' = pos + 1 /\ UNCHANGED <<cache, src>>
       ELSE IF src # <<>> THEN pos' = pos + 1 /\ cache' = Append(cache, Head(src)) /\ src' = Tail(src)
       ELSE UNCHANGED <<pos, cache, src>>
    /\ abs' = AfterLook(abs)
DoReset == Step("r") /\ pos' = 0 /\ abs' = AfterReset(abs) /\ same' = TRUE /\ UNCHANGED <<src, cache>>
Next == DoNext \/ DoLook \/ DoReset
Spec == Init /\ [][Next]_vars
Agree   == same
Refines == abs = [rest |-> cache \o src, off |-> pos]
NothingLost == \E k \in 0..Len(items) : cache \o src = SubSeq(items, k + 1, Len(items))
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(<<Len(items), h>>))
=============================================================================
