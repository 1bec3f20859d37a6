------------------------------- MODULE Octets -------------------------------
(* Octet strings, hexadecimal, semi-octets and septets (3GPP TS 23.038/040) *)
EXTENDS Integers, Sequences, SequencesExt
(* clipped to the sequence *)
LOCAL Cut(s, a, b) == LET c == IF b > Len(s) THEN Len(s) ELSE b
                      IN IF c < a THEN <<>> ELSE SubSeq(s, a, c)
P2 == [i \in 0..8 |-> 2^i]

(* ---- hexadecimal: text is a sequence of character codes --------------- *)
HexTab == [c \in 0..127 |-> IF c \in 48..57 THEN c - 48
                            ELSE IF c \in 65..70 THEN c - 55
                            ELSE IF c \in 97..102 THEN c - 87 ELSE -1]
HexDigit(c) == IF c \in 0..127 THEN HexTab[c] ELSE -1
IsHex(text) == Len(text) % 2 = 0 /\ \A i \in 1..Len(text) : HexDigit(text[i]) >= 0
UpperHex(text) == \A i \in 1..Len(text) : text[i] \in (48..57) \cup (65..70)
FromHex(text) == [i \in 1..(Len(text) \div 2) |->
                    16 * HexDigit(text[2*i - 1]) + HexDigit(text[2*i])]
HexOf(octets) ==     \* lower case
    LET H(n) == IF n < 10 THEN 48 + n ELSE 87 + n
    IN [i \in 1..(2 * Len(octets)) |->
          LET o == octets[(i + 1) \div 2] IN IF i % 2 = 1 THEN H(o \div 16) ELSE H(o % 16)]

(* ---- semi-octets: the low nibble comes first ---------------------------- *)
Nibbles(octets) == [i \in 1..(2 * Len(octets)) |->
                      LET o == octets[(i + 1) \div 2]
                      IN IF i % 2 = 1 THEN o % 16 ELSE o \div 16]
PackNibbles(ds) ==   \* padded with 15
    LET d == IF Len(ds) % 2 = 1 THEN Append(ds, 15) ELSE ds
    IN [i \in 1..(Len(d) \div 2) |-> d[2*i - 1] + 16 * d[2*i]]

(* ---- septets packed from the least significant bit ---------------------- *)
OctetAt(o, i) == IF i \in 1..Len(o) THEN o[i] ELSE 0
(* the i-th septet (from 0) of the bit string of o *)
SeptetAt(o, i) ==
    LET p == 7 * i
        b == p \div 8
        s == p % 8
    IN ((OctetAt(o, b + 1) + 256 * OctetAt(o, b + 2)) \div P2[s]) % 128
Septets(o, from, n) == [i \in 1..n |-> SeptetAt(o, from + i - 1)]
PackLen(n) == (7 * n + 7) \div 8
(* the octets of a septet sequence, zero padded *)
SeptetOf(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
PackSeptets(s) ==
    [k \in 1..PackLen(Len(s)) |->
        LET p == 8 * (k - 1)
            i == p \div 7
            r == p % 7
        IN ((SeptetOf(s, i + 1) + 128 * SeptetOf(s, i + 2)) \div P2[r]) % 256]
(* all bits of o after the first n septets are zero *)
TailZero(o, n) ==
    LET p == 7 * n
        b == p \div 8
        s == p % 8
    IN /\ (b + 1 <= Len(o) => o[b + 1] \div P2[s] = 0)
       /\ \A i \in (b + 2)..Len(o) : o[i] = 0

Ucs2(o) == [i \in 1..(Len(o) \div 2) |-> 256 * o[2*i - 1] + o[2*i]]
FromUcs2(u) == [i \in 1..(2 * Len(u)) |-> LET c == u[(i + 1) \div 2]
                   IN IF i % 2 = 1 THEN c \div 256 ELSE c % 256]
=============================================================================
