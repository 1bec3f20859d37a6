------------------------------- MODULE LawsPush -------------------------------
(***************************************************************************)
(* What is unwrapped from a push is the message that was wrapped, whatever  *)
(* stands in the header block, however its length is written, and also when *)
(* the header block itself looks like a message; another type is no push;   *)
(* what is cut short gives no message or one with less octets of its last   *)
(* part, never another one; and a message is a notification for exactly the *)
(* two headers that make it one.                                           *)
(***************************************************************************)
EXTENDS LawsMms, Wap
CONSTANTS LENGTHS, BLOCKS, PADS, TYPEOCTETS
VARIABLE w
Block(b, n) == CASE b = "zeros"   -> [i \in 1..n |-> 0]
                 [] b = "high"    -> [i \in 1..n |-> 255]
                 [] b = "type"    -> [i \in 1..n |-> IF i % 2 = 0 THEN 190 ELSE 6]
                 [] b = "message" -> LET o == MessageOctets(m) IN [i \in 1..n |-> o[((i - 1) % Len(o)) + 1]]
Wrapped(u) == <<u.tid, u.type>> \o [i \in 1..u.pad |-> 128] \o Uint(u.len) \o Block(u.block, u.len)
PInit == /\ m \in Messages_ /\ what = <<"none", 0>>
         /\ w \in [tid : {0, 6, 255}, type : TYPEOCTETS, len : LENGTHS, block : BLOCKS, pad : PADS]
PSpec == PInit /\ [][FALSE]_<<m, what, w>>

Unwrapped ==
    LET o == MessageOctets(m)
        s == Wrapped(w) \o o
    IN IF w.type # 6 THEN ~IsPush(s)
       ELSE /\ IsPush(s)
            /\ Is(Pushed(s), "ok") /\ Pushed(s).v = o
            /\ LET p == Push(s)
                   q == Message(o)
               IN Is(p, "ok") /\ Is(q, "ok") /\ p.v = q.v
(* a header block that is not all there is found to be cut short *)
CutShort == w.type = 6 => \A k \in {0, 1, 2} : k < Len(Wrapped(w)) - 2 =>
                ~Is(Pushed(Sub(Wrapped(w), 1, Len(Wrapped(w)) - 1 - k)), "ok") \/ w.len = 0
Notifications ==
    LET q == Message(MessageOctets(m))
        named(n) == \E j \in 1..Len(q.v.hdrs) : q.v.hdrs[j].name = Codes(n)
    IN IsNotification(q.v.hdrs) = (named("From") /\ named("Content-Location"))
       /\ (m.headers = "old") = IsNotification(q.v.hdrs)
=============================================================================
