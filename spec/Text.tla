-------------------------------- MODULE Text --------------------------------
(* Character codes of the literals the specification is written with.      *)
EXTENDS Integers, Sequences, TLC
LOCAL Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL Char(str, i) == SubSeq(str, i, i)
LOCAL Place(i) == IF i <= 2 THEN 31 + i ELSE IF i <= 59 THEN 32 + i ELSE 33 + i
LOCAL CodeOf == [c \in {Char(Printable, i) : i \in 1..Len(Printable)} |->
                   Place(CHOOSE i \in 1..Len(Printable) : Char(Printable, i) = c)]
Codes(str) == [i \in 1..Len(str) |-> CodeOf[Char(str, i)]]
AllCodes(strs) == [i \in 1..Len(strs) |-> Codes(strs[i])]
IndexOf(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x
                   THEN CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i - 1) : seq[j] # x
                   ELSE 0
=============================================================================
