-------------------------------- MODULE C01 --------------------------------
(* Trace specification for the GSM 03.38 codec: every recorded call of the *)
(* codec must be the transition the alphabet prescribes.                   *)
EXTENDS Obs, Gsm0338
VARIABLE l

Enc(e) ==   \* e.text encoded under e.pol gave e.r
    LET okay == Encodable(e.text)
        exp  == Encode(e.text, e.pol)
    IN IF e.pol = "strict" /\ ~okay THEN Chk("enc-refuse", FailsWith(e.r, "UnicodeError"))
       ELSE Chk("enc-value", Gives(e.r, Str(exp)))

Dec(e) ==
    LET d == Decode(e.octets, e.pol)
    IN IF e.pol = "strict" /\ d.bad THEN Chk("dec-refuse", FailsWith(e.r, "UnicodeError"))
       ELSE Chk("dec-value", Gives(e.r, Str(d.txt)))

(* a whole block of characters encoded one at a time, starting at e.base *)
EncBlock(e) ==
    UNION { LET ch == e.chars[i]
                r  == e.rs[i]
            IN IF ch \in Chars THEN Chk("enc-char", r = EncTab[ch])
               ELSE IF e.pol = "strict" THEN Chk("enc-char-refuse", r = <<-1>>)
               ELSE Chk("enc-char-policy", r = EncChar(ch, e.pol))
          : i \in 1..Len(e.chars) }
PredBlock(e) ==
    UNION { Chk("predicate", e.rs[i] = (IF e.chars[i] \in Chars THEN 1 ELSE 0))
          : i \in 1..Len(e.chars) }
Pred(e) == Chk("predicate", Gives(e.r, Bool(Encodable(e.text))))

Judge(e) ==
    CASE e.op = "enc" -> Enc(e)
      [] e.op = "dec" -> Dec(e)
      [] e.op = "encblock" -> EncBlock(e)
      [] e.op = "predblock" -> PredBlock(e)
      [] e.op = "pred" -> Pred(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
