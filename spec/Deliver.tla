------------------------------- MODULE Deliver -------------------------------
(***************************************************************************)
(* What a received PDU says: SMS-DELIVER and SMS-STATUS-REPORT of 3GPP TS  *)
(* 23.040 with the data coding of TS 23.038, from octets to an observation *)
(* of the decoded message.                                                 *)
(***************************************************************************)
EXTENDS Obs, Tpdu, Periods

(* ---- data coding scheme: 0 GSM, 4 octets, 8 UCS2, -1 reserved ------------- *)
AlphabetOf(dcs) ==
    LET g == dcs \div 16
        a == (dcs \div 4) % 4
    IN CASE g \in 0..7      -> IF a = 3 THEN -1 ELSE 4 * a
         [] g \in 8..11     -> -1
         [] g \in {12, 13}  -> 0
         [] g = 14          -> 8
         [] g = 15          -> IF a >= 2 THEN -1 ELSE 4 * a
Compressed(dcs) == dcs \div 16 \in {2, 3, 6, 7}

(* ---- fields ----------------------------------------------------------------- *)
DigitsOk(ds) == \A i \in 1..Len(ds) : ds[i] \in 0..9
(* an address field of n useful semi-octets *)
AddressOk(toa, n, octets) ==
    /\ Len(octets) = (n + 1) \div 2
    /\ IF TonOf(toa) = ALNUM
       THEN LET k == AlnumSeptets(n) IN n = (7 * k + 3) \div 4
       ELSE LET f == NumberField(octets, n) IN f.ok /\ DigitsOk(f.digits)
AddressText(toa, n, octets) ==
    IF TonOf(toa) = ALNUM
    THEN Decode(Septets(octets, 0, AlnumSeptets(n)), "ignore").txt
    ELSE NumberText(toa, NumberField(octets, n).digits)
SmscOk(s) == s.ok /\ (s.len = 0 \/ (s.len >= 2 /\ TonOf(s.toa) # ALNUM /\ DigitsOk(s.digits)))
SmscObs(s) == IF s.len = 0 THEN None ELSE Str(NumberText(s.toa, s.digits))

(* seven octets of a time stamp *)
StampDate(o) == << FullYear(UnBcd(o[1])), UnBcd(o[2]), UnBcd(o[3]), UnBcd(o[4]),
                   UnBcd(o[5]), UnBcd(o[6]) >>
StampDateOk(o) == Len(o) >= 6 /\ (\A i \in 1..6 : BcdOk(o[i])) /\ ValidDate(StampDate(o))
ZoneOk(o) == o \div 16 < 10
DateObs(d) == Date(d \o <<0>>)
UtcObs(o) == DateObs(ShiftMinutes(StampDate(o), -ZoneMinutes(o[7])))

(* ---- SMS-DELIVER ------------------------------------------------------------- *)
(* ok: all of the header is there; the fields are undefined otherwise *)
ParseDeliver(o) ==
    LET s  == ParseSmsc(o)
        i  == s.next
        n  == IF Len(o) >= i + 1 THEN o[i + 1] ELSE 0
        dn == (n + 1) \div 2
        j  == i + 3 + dn
    IN IF ~s.ok \/ Len(o) < i + 2 \/ Len(o) < j + 9 THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, smsc |-> s, first |-> o[i], n |-> n, toa |-> o[i + 2],
             addr |-> Sub(o, i + 3, i + 2 + dn), pid |-> o[j], dcs |-> o[j + 1],
             scts |-> Sub(o, j + 2, j + 8), udl |-> o[j + 9], rest |-> Sub(o, j + 10, Len(o))]
FmtOf(p) == AlphabetOf(p.dcs)
UdOf(p)  == Sub(p.rest, 1, UdOctets(FmtOf(p) \div 4, p.udl))
HeaderOf(p) == IF Udhi(p.first) THEN Sub(UdOf(p), 2, UdOf(p)[1] + 1) ELSE <<>>
IesOf(p) == Ies(HeaderOf(p))
DeliverHeaderOk(p) ==
    /\ p.ok
    /\ Mti(p.first) = 0
    /\ SmscOk(p.smsc)
    /\ AddressOk(p.toa, p.n, p.addr)
    /\ FmtOf(p) >= 0 /\ ~Compressed(p.dcs)
    /\ StampDateOk(p.scts) /\ ZoneOk(p.scts[7])
DeliverBodyOk(p) ==
    /\ p.udl <= (IF FmtOf(p) = 0 THEN 160 ELSE 140)
    /\ UdWellFormed(FmtOf(p) \div 4, Udhi(p.first), p.udl, UdOf(p))
    /\ Udhi(p.first) => IesWellFormed(HeaderOf(p))
    (* surrogates are not characters of UCS-2 *)
    /\ FmtOf(p) = 8 => LET us == Units(2, Udhi(p.first), p.udl, UdOf(p))
                       IN \A i \in 1..Len(us) : us[i] \div 2048 # 27
IsDeliver(o) == LET p == ParseDeliver(o)
                IN IF DeliverHeaderOk(p) THEN DeliverBodyOk(p) ELSE FALSE

TextOfPdu(p) ==
    LET al == FmtOf(p) \div 4
    IN TextOf(al, Units(al, Udhi(p.first), p.udl, UdOf(p)))

ConcatObs(c) == IF c.some THEN [ref |-> Int_(c.ref), cnt |-> Int_(c.cnt), seq |-> Int_(c.seq)]
                ELSE [ref |-> None, cnt |-> None, seq |-> None]
ConcatFull(c) == IF c.some THEN Tup(<<Int_(c.ref), Int_(c.cnt), Int_(c.seq), Bool(c.eight)>>) ELSE None
PortsFull(c)  == IF c.some THEN Tup(<<Int_(c.dest), Int_(c.orig), Bool(c.eight)>>) ELSE None
(* the last element of each identifier, as a set of <<identifier, octets>> *)
ElementsOf(ies) ==
    { << ies[i].id, ies[i].data >> : i \in { j \in 1..Len(ies) :
                                  \A k \in (j + 1)..Len(ies) : ies[k].id # ies[j].id } }

(* ---- clauses ------------------------------------------------------------------ *)
(* o: the octets of a PDU; v: the observation, with d.* as reported by the *)
(* dictionary and a.* by the attributes                                    *)
Both(name, v, f, x) == Chk(name, v.d[f] = x) \cup Chk(name, v.a[f] = x)
HeaderClauses(p, v) ==
         Both("service-centre", v, "csca", SmscObs(p.smsc))
    \cup Both("sender", v, "number", Str(AddressText(p.toa, p.n, p.addr)))
    \cup Both("protocol-id", v, "pid", Int_(p.pid))
    \cup Both("data-coding", v, "dcs", Int_(p.dcs))
    \cup Both("alphabet", v, "fmt", Int_(FmtOf(p)))
    \cup Both("date", v, "date", UtcObs(p.scts))
    \cup Both("not-a-report", v, "sr", None)
    \cup Both("type", v, "type", None)
TextClausesD(p, v) ==
    LET c == IF Udhi(p.first) THEN ConcatOf(IesOf(p)) ELSE [some |-> FALSE]
    IN   Both("text", v, "text", Str(TextOfPdu(p)))
    \cup Both("reference", v, "ref", ConcatObs(c).ref)
    \cup Both("count", v, "cnt", ConcatObs(c).cnt)
    \cup Both("sequence", v, "seq", ConcatObs(c).seq)
UdhClauses(ies, u) ==      \* u: [some, concat, ports, ies]
         Chk("elements", { u.ies[i] : i \in 1..Len(u.ies) } = ElementsOf(ies))
    \cup Chk("concatenation", u.concat = ConcatFull(ConcatOf(ies)))
    \cup Chk("ports", u.ports = PortsFull(PortsOf(ies)))
DeliverUdhClauses(p, v) ==
    IF Udhi(p.first) THEN IF v.udh.some THEN UdhClauses(IesOf(p), v.udh) ELSE {"header-missing"}
    ELSE Chk("header", ~v.udh.some)

(* ---- SMS-STATUS-REPORT ----------------------------------------------------------- *)
ParseReport(o) ==
    LET s  == ParseSmsc(o)
        i  == s.next
        n  == IF Len(o) >= i + 2 THEN o[i + 2] ELSE 0
        dn == (n + 1) \div 2
        j  == i + 4 + dn
    IN IF ~s.ok \/ Len(o) < i + 3 \/ Len(o) < j - 1 THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, smsc |-> s, first |-> o[i], mr |-> o[i + 1], n |-> n, toa |-> o[i + 3],
             addr |-> Sub(o, i + 4, i + 3 + dn), scts |-> Sub(o, j, Min2(j + 6, Len(o))),
             dt |-> Sub(o, j + 7, Min2(j + 13, Len(o))), after |-> Sub(o, j + 14, Len(o))]
WholeStamp(o) == Len(o) \in {0, 7}
IsReport(o) ==
    LET p == ParseReport(o)
    IN IF ~p.ok THEN FALSE
       ELSE /\ Mti(p.first) = 2 /\ SmscOk(p.smsc) /\ TonOf(p.toa) # ALNUM
            /\ AddressOk(p.toa, p.n, p.addr) /\ WholeStamp(p.scts) /\ WholeStamp(p.dt)
StampObs(o) == IF StampDateOk(o) THEN DateObs(StampDate(o)) ELSE None
(* yy/mm/dd HH:MM:SS *)
StampText(o) ==
    IF ~StampDateOk(o) THEN <<>>
    ELSE LET D(k) == << 48 + (o[k] % 16), 48 + (o[k] \div 16) >>
         IN D(1) \o <<47>> \o D(2) \o <<47>> \o D(3) \o <<32>> \o D(4) \o <<58>> \o D(5) \o <<58>> \o D(6)
Label(st) == IF st = -1 THEN "SR-UNKNOWN" ELSE IF st = 0 THEN "SR-OK"
             ELSE IF st = 48 THEN "SR-STORED" ELSE "SR-UNKNOWN"
LabelCodes == [x \in {"SR-UNKNOWN", "SR-OK", "SR-STORED"} |->
    CASE x = "SR-OK" -> << 83, 82, 45, 79, 75 >>
      [] x = "SR-STORED" -> << 83, 82, 45, 83, 84, 79, 82, 69, 68 >>
      [] OTHER -> << 83, 82, 45, 85, 78, 75, 78, 79, 87, 78 >>]
ReportClauses(p, v) ==
    LET st  == IF Len(p.after) = 0 THEN -1 ELSE p.after[1]
        rec == NumberText(p.toa, NumberField(p.addr, p.n).digits)
        dtt == IF st \in {-1, 0} THEN StampText(p.dt) ELSE <<>>
    IN   Both("service-centre", v, "csca", SmscObs(p.smsc))
    \cup Both("outcome-label", v, "number", Str(LabelCodes[Label(st)]))
    \cup Both("report-text", v, "text", Str(rec \o <<124>> \o StampText(p.scts) \o <<124>> \o dtt))
    \cup Both("message-reference", v, "ref", Int_(p.mr))
    \cup Both("submission-time", v, "date", StampObs(p.scts))
    \cup Both("type", v, "type", Int_(3))
    \cup Both("alphabet", v, "fmt", Int_(8))
    \cup Chk("same-report", v.d.sr = v.a.sr)
    \cup (IF v.sr.some
          THEN Chk("recipient", v.sr.recipient = Str(rec))
               \cup Chk("submission-time", v.sr.scts = StampObs(p.scts))
               \cup Chk("delivery-time", v.sr.dt = StampObs(p.dt))
               \cup Chk("status", v.sr.status = (IF st = -1 THEN None ELSE Int_(st)))
          ELSE {"report-missing"})

(* ---- any PDU text -------------------------------------------------------------------- *)
(* what decoding a text must do, as one of                                 *)
(* "odd", "not-hex", "submit", "cut", "deliver", "report", "free"          *)
Kind(pdu, strict) ==
    LET q == IF Len(pdu) % 2 = 1 /\ ~strict THEN Sub(pdu, 1, Len(pdu) - 1) ELSE pdu
    IN IF Len(q) % 2 = 1 THEN "odd"
       ELSE IF ~IsHex(q) THEN "not-hex"
       ELSE LET o == FromHex(q)
                s == ParseSmsc(o)
            IN IF ~s.ok \/ Len(o) < s.next THEN "cut"
               ELSE CASE Mti(o[s.next]) = 1 -> "submit"
                      [] Mti(o[s.next]) = 2 -> IF IsReport(o) THEN "report" ELSE "free"
                      [] Mti(o[s.next]) = 0 -> IF ~ParseDeliver(o).ok THEN "cut"
                                               ELSE IF IsDeliver(o) THEN "deliver" ELSE "free"
                      [] OTHER              -> IF ~ParseDeliver(o).ok THEN "cut" ELSE "free"
OctetsOf(pdu) == FromHex(IF Len(pdu) % 2 = 1 THEN Sub(pdu, 1, Len(pdu) - 1) ELSE pdu)
=============================================================================
