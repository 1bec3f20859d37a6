-------------------------------- MODULE Wap --------------------------------
(* WAP push PDUs (WAP-230 8.2.4.1): transaction id, PDU type 0x06, length  *)
(* of the header block, header block, the message.                         *)
EXTENDS Mms
IsPush(s) == Len(s) >= 2 /\ s[2] = 6
(* [st, v: the octets of the message] *)
Pushed(s) ==
    LET h == Uintvar(s, 3)
    IN IF ~Is(h, "ok") THEN h
       ELSE IF h.n + Count(h) > Len(s) + 1 THEN End
       ELSE Ok(Sub(s, h.n + Count(h), Len(s)), Len(s) + 1)
Push(s) == LET p == Pushed(s) IN IF Is(p, "ok") THEN Message(p.v) ELSE p
(* a notification names a sender and a place to fetch the message from      *)
IsNotification(hs) == {Codes("From"), Codes("Content-Location")} \subseteq Names(hs)
=============================================================================
