------------------------------ MODULE Gsm0338 ------------------------------
(* The GSM 03.38 / 3GPP TS 23.038 default alphabet and extension table.    *)
(* Characters are Unicode code points; codes are septets 0..127.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

ESC == 27
NBSP == 160
QuestionMark == 63
(* Basic[code + 1] is the character of a code; -1 for the escape code *)
Basic == <<
  64, 163, 36, 165, 232, 233, 249, 236,
  242, 199, 10, 216, 248, 13, 197, 229,
  916, 95, 934, 915, 923, 937, 928, 936,
  931, 920, 926, -1, 198, 230, 223, 201,
  32, 33, 34, 35, 164, 37, 38, 39,
  40, 41, 42, 43, 44, 45, 46, 47,
  48, 49, 50, 51, 52, 53, 54, 55,
  56, 57, 58, 59, 60, 61, 62, 63,
  161, 65, 66, 67, 68, 69, 70, 71,
  72, 73, 74, 75, 76, 77, 78, 79,
  80, 81, 82, 83, 84, 85, 86, 87,
  88, 89, 90, 196, 214, 209, 220, 167,
  191, 97, 98, 99, 100, 101, 102, 103,
  104, 105, 106, 107, 108, 109, 110, 111,
  112, 113, 114, 115, 116, 117, 118, 119,
  120, 121, 122, 228, 246, 241, 252, 224 >>
(* the extension table: <<code after the escape, character>> *)
ExtTable == { <<10, 12>>, <<20, 94>>, <<40, 123>>, <<41, 125>>, <<47, 92>>, <<60, 91>>, <<61, 126>>, <<62, 93>>, <<64, 124>>, <<101, 8364>> }
(* characters with a look-alike in the alphabet: <<character, code>> *)
LookAlike == { <<231, 9>>, <<913, 65>>, <<914, 66>>, <<917, 69>>, <<918, 90>>, <<919, 72>>, <<921, 73>>, <<922, 75>>, <<924, 77>>, <<925, 78>>, <<927, 79>>, <<929, 80>>, <<932, 84>>, <<933, 89>>, <<935, 88>> }

Codes     == 0..127
ExtCodes  == { p[1] : p \in ExtTable }
BasicChars == { Basic[c + 1] : c \in Codes \ {ESC} }
ExtChars   == { p[2] : p \in ExtTable }
Chars      == BasicChars \cup ExtChars
LookChars  == { p[1] : p \in LookAlike }

BasicCode == [ch \in BasicChars |-> CHOOSE c \in Codes : Basic[c + 1] = ch]
ExtCode   == [ch \in ExtChars |-> (CHOOSE p \in ExtTable : p[2] = ch)[1]]
ExtChar   == [c \in Codes |-> IF c \in ExtCodes
                THEN (CHOOSE p \in ExtTable : p[1] = c)[2] ELSE NBSP]
LookCode  == [ch \in LookChars |-> (CHOOSE p \in LookAlike : p[1] = ch)[2]]

(* the codes of one character *)
EncTab == [ch \in Chars |-> IF ch \in BasicChars THEN <<BasicCode[ch]>>
                            ELSE <<ESC, ExtCode[ch]>>]
EncChar(ch, policy) ==
    IF ch \in Chars THEN EncTab[ch]
    ELSE IF policy = "ignore" THEN <<>>
    ELSE IF ch \in LookChars THEN <<LookCode[ch]>> ELSE <<QuestionMark>>

(* concatenation of a sequence of sequences, by halves *)
RECURSIVE JoinRange(_, _, _)
JoinRange(seqs, a, b) ==
    IF a > b THEN <<>> ELSE IF a = b THEN seqs[a]
    ELSE LET m == (a + b) \div 2 IN JoinRange(seqs, a, m) \o JoinRange(seqs, m + 1, b)
Join(seqs) == JoinRange(seqs, 1, Len(seqs))

Encodable(text) == \A i \in 1..Len(text) : text[i] \in Chars
(* "strict" is only defined for encodable texts *)
Encode(text, policy) ==
    Join([i \in 1..Len(text) |-> EncChar(text[i], policy)])

(* Decoding consumes one octet, or two after an escape.  The fold carries  *)
(* the characters so far and whether the previous octet was an escape.     *)
DecStep(acc, b, policy) ==
    IF acc.esc THEN [txt |-> Append(acc.txt, IF b \in Codes THEN ExtChar[b] ELSE NBSP),
                     esc |-> FALSE, bad |-> acc.bad]
    ELSE IF b = ESC THEN [acc EXCEPT !.esc = TRUE]
    ELSE IF b \in Codes THEN [acc EXCEPT !.txt = Append(@, Basic[b + 1])]
    ELSE IF policy = "ignore" THEN [acc EXCEPT !.bad = TRUE]
    ELSE [acc EXCEPT !.txt = Append(@, QuestionMark), !.bad = TRUE]
DecFold(octets, policy) ==
    FoldLeft(LAMBDA acc, b : DecStep(acc, b, policy),
             [txt |-> <<>>, esc |-> FALSE, bad |-> FALSE], octets)
(* [txt, bad]: the text, and whether an octet above 127 was met *)
Decode(octets, policy) ==
    LET r == DecFold(octets, policy)
    IN [txt |-> IF r.esc THEN Append(r.txt, NBSP) ELSE r.txt, bad |-> r.bad]
=============================================================================
