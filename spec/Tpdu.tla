-------------------------------- MODULE Tpdu --------------------------------
(* The transfer PDUs of 3GPP TS 23.040, as exchanged with a modem: service *)
(* centre address, then SMS-SUBMIT, SMS-DELIVER or SMS-STATUS-REPORT.      *)
EXTENDS Integers, Sequences, FiniteSets, Octets, Gsm0338
(* clipped to the sequence *)
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)

(* ---- addresses --------------------------------------------------------- *)
TonOf(toa) == (toa \div 16) % 8
INTL == 1
ALNUM == 5
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n      \* as a (lower case) character
(* the digits of a number field of n semi-octets: fillers after them only *)
NumberField(octets, n) ==
    LET nb == Nibbles(octets)
    IN [digits |-> Cut(nb, 1, n),
        ok |-> Len(octets) = (n + 1) \div 2 /\ (n % 2 = 1 => nb[n + 1] = 15)]
NumberText(toa, digits) ==
    (IF TonOf(toa) = INTL THEN <<43>> ELSE <<>>)
      \o [i \in 1..Len(digits) |-> Digit(digits[i])]
(* the number a text such as +12345 stands for *)
IsPlus(num) == Len(num) > 0 /\ num[1] = 43
DigitsOf(num) == LET d == IF IsPlus(num) THEN Cut(num, 2, Len(num)) ELSE num
                 IN [i \in 1..Len(d) |-> d[i] - 48]
ToaOf(num) == IF IsPlus(num) THEN 145 ELSE 129

(* septets an alphanumeric address of n useful semi-octets holds *)
AlnumSeptets(n) == (4 * n) \div 7

(* ---- service centre ------------------------------------------------------ *)
(* [len, toa, digits, ok, next]: next is the index after the field *)
ParseSmsc(o) ==
    IF Len(o) = 0 THEN [ok |-> FALSE, len |-> 0, toa |-> 0, digits |-> <<>>, next |-> 1]
    ELSE LET n == o[1] IN
      IF n = 0 THEN [ok |-> TRUE, len |-> 0, toa |-> 0, digits |-> <<>>, next |-> 2]
      ELSE IF Len(o) < n + 1 THEN [ok |-> FALSE, len |-> n, toa |-> 0, digits |-> <<>>, next |-> 1]
      ELSE LET nb == Nibbles(Cut(o, 3, n + 1))
               filled == Len(nb) > 0 /\ nb[Len(nb)] = 15
           IN [ok |-> TRUE, len |-> n, toa |-> o[2],
               digits |-> IF filled THEN Cut(nb, 1, Len(nb) - 1) ELSE nb, next |-> n + 2]

(* ---- first octet ---------------------------------------------------------- *)
Mti(f)  == f % 4
SubmitVpf(f) == (f \div 8) % 4         \* 0 none, 2 relative, 3 absolute, 1 enhanced
Udhi(f) == (f \div 64) % 2 = 1
Srr(f)  == (f \div 32) % 2 = 1

(* ---- data coding ------------------------------------------------------------ *)
Alphabet(dcs) == (dcs \div 4) % 4      \* 0 GSM, 1 octets, 2 UCS2
NOCLASS == 4
Class(dcs) == IF (dcs \div 16) % 2 = 1 THEN dcs % 4 ELSE NOCLASS

(* ---- user data --------------------------------------------------------------- *)
(* octets of user data a length field announces *)
UdOctets(alpha, udl) == IF alpha = 0 THEN PackLen(udl) ELSE udl
(* header octets, including their length octet *)
HdrOctets(udhi, ud) == IF udhi THEN (IF Len(ud) = 0 THEN 0 ELSE ud[1] + 1) ELSE 0
(* septets the header (and fill bits) takes *)
HdrSeptets(h) == (8 * h + 6) \div 7
UdWellFormed(alpha, udhi, udl, ud) ==
    /\ Len(ud) = UdOctets(alpha, udl)
    /\ udhi => /\ Len(ud) > 0
               /\ ud[1] + 1 <= Len(ud)
               /\ alpha = 0 => HdrSeptets(ud[1] + 1) <= udl
    /\ alpha = 2 => (udl - HdrOctets(udhi, ud)) % 2 = 0
(* the text units of user data: septets, octets or UCS-2 units *)
Units(alpha, udhi, udl, ud) ==
    LET h == HdrOctets(udhi, ud)
    IN IF alpha = 0 THEN LET hs == HdrSeptets(h) IN Septets(ud, hs, udl - hs)
       ELSE IF alpha = 1 THEN Cut(ud, h + 1, udl)
       ELSE Ucs2(Cut(ud, h + 1, udl))
(* the fill bits between header and text, and the bits after the text *)
PaddingZero(alpha, udhi, udl, ud) ==
    alpha = 0 =>
      /\ TailZero(ud, udl)
      /\ LET h == HdrOctets(udhi, ud)
             fill == (7 * HdrSeptets(h)) - 8 * h
         IN fill > 0 /\ Len(ud) > h => ud[h + 1] % P2[fill] = 0
TextOf(alpha, units) == IF alpha = 0 THEN Decode(units, "ignore").txt ELSE units

(* ---- user data header: sequence of [id, data] --------------------------- *)
RECURSIVE Ies(_)
Ies(h) ==       \* h: the header without its length octet
    IF Len(h) < 2 THEN <<>>
    ELSE IF Len(h) < 2 + h[2] THEN <<>>
    ELSE <<[id |-> h[1], data |-> Cut(h, 3, 2 + h[2])]>> \o Ies(Cut(h, 3 + h[2], Len(h)))
RECURSIVE IesWellFormed(_)
IesWellFormed(h) ==
    IF Len(h) = 0 THEN TRUE
    ELSE IF Len(h) < 2 THEN FALSE
    ELSE IF Len(h) < 2 + h[2] THEN FALSE
    ELSE /\ (h[1] \in {0} => h[2] = 3) /\ (h[1] = 8 => h[2] = 4)
         /\ (h[1] = 4 => h[2] = 2) /\ (h[1] = 5 => h[2] = 4)
         /\ IesWellFormed(Cut(h, 3 + h[2], Len(h)))
(* the last concatenation element, or "none" *)
ConcatOf(ies) ==
    LET S == { i \in 1..Len(ies) : ies[i].id \in {0, 8} }
    IN IF S = {} THEN [some |-> FALSE]
       ELSE LET e == ies[CHOOSE i \in S : \A j \in S : j <= i]
            IN IF e.id = 0
               THEN [some |-> TRUE, ref |-> e.data[1], cnt |-> e.data[2], seq |-> e.data[3], eight |-> TRUE]
               ELSE [some |-> TRUE, ref |-> 256 * e.data[1] + e.data[2], cnt |-> e.data[3],
                     seq |-> e.data[4], eight |-> FALSE]
PortsOf(ies) ==
    LET S == { i \in 1..Len(ies) : ies[i].id \in {4, 5} }
    IN IF S = {} THEN [some |-> FALSE]
       ELSE LET e == ies[CHOOSE i \in S : \A j \in S : j <= i]
            IN IF e.id = 4
               THEN [some |-> TRUE, dest |-> e.data[1], orig |-> e.data[2], eight |-> TRUE]
               ELSE [some |-> TRUE, dest |-> 256 * e.data[1] + e.data[2],
                     orig |-> 256 * e.data[3] + e.data[4], eight |-> FALSE]

(* ---- SMS-SUBMIT ----------------------------------------------------------- *)
VpOctets(f) == CASE SubmitVpf(f) = 0 -> 0 [] SubmitVpf(f) = 2 -> 1 [] OTHER -> 7
(* ok: the octets are exactly one SUBMIT with its service centre *)
ParseSubmit(o) ==
    LET s  == ParseSmsc(o)
        i  == s.next
        n  == IF Len(o) >= i + 2 THEN o[i + 2] ELSE 0
        dn == (n + 1) \div 2
        j  == i + 4 + dn                  \* TP-PID
        f  == o[i]
        vn == VpOctets(f)
        k  == j + 2 + vn                  \* TP-UDL
    IN IF ~s.ok \/ Len(o) < i + 4 \/ Len(o) < j + 2 THEN [ok |-> FALSE]
       ELSE IF Len(o) < k THEN [ok |-> FALSE]
       ELSE LET da  == NumberField(Cut(o, i + 4, i + 3 + dn), n)
                ud  == Cut(o, k + 1, Len(o))
                dcs == o[j + 1]
            IN [ok |-> s.ok /\ da.ok, smsc |-> s, first |-> f, mr |-> o[i + 1],
                toa |-> o[i + 3], digits |-> da.digits, pid |-> o[j], dcs |-> dcs,
                vp |-> Cut(o, j + 2, j + 1 + vn), udl |-> o[k], ud |-> ud,
                len |-> Len(o) - (i - 1)]
=============================================================================
