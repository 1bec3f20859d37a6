-------------------------------- MODULE C13 --------------------------------
(* The packing and digit helpers, call by call.                            *)
EXTENDS Obs, Octets
VARIABLE l

Hexadecimal(r, octets) ==   \* r gave a hexadecimal text of these octets
    IF ~r.ok THEN FALSE
    ELSE IF r.v.k # "s" THEN FALSE
    ELSE IF ~IsHex(r.v.c) THEN FALSE ELSE FromHex(r.v.c) = octets
SwapPairs(s) == [i \in 1..Len(s) |->
                   IF i % 2 = 1 THEN (IF i < Len(s) THEN s[i + 1] ELSE s[i]) ELSE s[i - 1]]
(* a six octet header: 48 bits, one fill bit, then the septets from the 7th *)
PackAfterHeader(h, m) ==
    LET body == PackSeptets([i \in 1..7 |-> 0] \o m)
    IN << 7 + Len(m) >> \o [i \in 1..Len(body) |-> IF i <= 6 THEN h[i] ELSE body[i]]

Judge(e) ==
    CASE e.op = "pack7" ->
           Chk("pack", Hexadecimal(e.r, <<Len(e.m)>> \o PackSeptets(e.m)))
      [] e.op = "pack7h" ->
           Chk("pack-after-header", Hexadecimal(e.r, PackAfterHeader(e.h, e.m)))
      [] e.op = "pack8" ->
           Chk("pack-octets", Hexadecimal(e.r, <<Len(e.h) + Len(e.m)>> \o e.h \o e.m))
      [] e.op = "pack16" ->
           Chk("pack-ucs2", Hexadecimal(e.r, <<Len(e.h) + 2 * Len(e.m)>> \o e.h \o FromUcs2(e.m)))
      [] e.op = "unpack" ->
           Chk("unpack", Gives(e.r, Str(Septets(e.o, 0, Min2(160, (8 * Len(e.o)) \div 7)))))
      [] e.op = "swap" ->
           Chk("swap", Gives(e.r, Lst([i \in 1..Len(e.m) |-> Int_(SwapPairs(e.m)[i])])))
           \cup Chk("swap-involution", Gives(e.again, Lst([i \in 1..Len(e.m) |-> Int_(e.m[i])])))
           \cup Chk("swap-argument", e.kept)
      [] e.op = "number" ->     \* the hexadecimal form of swapped, padded digits
           Chk("number", Gives(e.r, Str([i \in 1..Len(e.digits) |-> 48 + e.digits[i]])))
      [] e.op = "hex" ->
           Chk("hex", Gives(e.str, Str(HexOf(e.o))))
           \cup Chk("hex", Gives(e.bytes, Str(HexOf(e.o))))
           \cup Chk("hex-inverse", Gives(e.back, Arr(e.o)))
           \cup Chk("hex-upper", Gives(e.up, Arr(e.o)))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
