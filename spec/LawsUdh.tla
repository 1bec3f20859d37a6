------------------------------- MODULE LawsUdh --------------------------------
(***************************************************************************)
(* User data headers: what is built from information elements is read back  *)
(* as those elements; a header cut anywhere but between two elements is not *)
(* well-formed; the concatenation and the ports do not depend on what       *)
(* stands around them nor on its order; and the clauses that judge an       *)
(* implementation accept what these elements mean and nothing else.        *)
(***************************************************************************)
EXTENDS Deliver
CONSTANTS ELEMENTS, UNKNOWN
VARIABLE ies
Sizes(id) == CASE id = 0 -> {3} [] id = 8 -> {4} [] id = 4 -> {2} [] id = 5 -> {4} [] OTHER -> {0, 1, 5}
Element == UNION { { [id |-> i, data |-> [k \in 1..n |-> (a + (40 * k * i)) % 256]] : n \in Sizes(i), a \in {1, 200} } :
                   i \in {0, 4, 5, 8} \cup UNKNOWN }
Init == ies \in UNION { [1..n -> Element] : n \in 0..ELEMENTS }
Spec == Init /\ [][FALSE]_ies

RECURSIVE Octets_(_)
Octets_(q) == IF q = <<>> THEN <<>> ELSE <<q[1].id, Len(q[1].data)>> \o q[1].data \o Octets_(Tail(q))
H == Octets_(ies)
Ends == { Len(Octets_(SubSeq(ies, 1, k))) : k \in 0..Len(ies) }
ReadBack == IesWellFormed(H) /\ Ies(H) = ies
Cuts == \A k \in 0..Len(H) : IesWellFormed(SubSeq(H, 1, k)) = (k \in Ends)
(* what is known of a header in which every identifier is there once is known of all its orders *)
Distinct == \A a \in 1..Len(ies) : \A b \in 1..Len(ies) : ies[a].id = ies[b].id => a = b
Family(i) == CASE i \in {0, 8} -> "c" [] i \in {4, 5} -> "p" [] OTHER -> "u"
OneOfAKind == \A a \in 1..Len(ies) : \A b \in 1..Len(ies) :
                 Family(ies[a].id) = Family(ies[b].id) /\ Family(ies[a].id) # "u" => a = b
Reversed == [k \in 1..Len(ies) |-> ies[Len(ies) + 1 - k]]
Unordered == /\ Distinct => ElementsOf(Reversed) = ElementsOf(ies)
             /\ OneOfAKind => /\ ConcatOf(Reversed) = ConcatOf(ies)
                              /\ PortsOf(Reversed) = PortsOf(ies)
(* what does not concern them does not change them *)
Apart(S) == SelectSeq(ies, LAMBDA e : e.id \in S)
Alone == ConcatOf(ies) = ConcatOf(Apart({0, 8})) /\ PortsOf(ies) = PortsOf(Apart({4, 5}))
(* the observation that satisfies the clauses, and some that must not *)
Rank(S) == SetToSeq(S)
Shown == [some |-> TRUE, concat |-> ConcatFull(ConcatOf(ies)), ports |-> PortsFull(PortsOf(ies)), ies |-> Rank(ElementsOf(ies))]
Judged(u) == UdhClauses(ies, u)
Swap(c) == IF c.some THEN Tup(<<Int_(c.ref), Int_(c.seq), Int_(c.cnt), Bool(c.eight)>>) ELSE Tup(<<Int_(0), Int_(1), Int_(1), Bool(TRUE)>>)
Width(c) == IF c.some THEN Tup(<<Int_(c.dest), Int_(c.orig), Bool(~c.eight)>>) ELSE Tup(<<Int_(0), Int_(0), Bool(TRUE)>>)
Determined ==
    /\ Judged(Shown) = {}
    /\ (ConcatOf(ies).some => ConcatOf(ies).cnt # ConcatOf(ies).seq) => Judged([Shown EXCEPT !.concat = Swap(ConcatOf(ies))]) # {}
    /\ Judged([Shown EXCEPT !.ports = Width(PortsOf(ies))]) # {}
    /\ ies # <<>> => Judged([Shown EXCEPT !.ies = Tail(@)]) # {}
    /\ Judged([Shown EXCEPT !.ies = Append(@, <<77, <<1>>>>)]) # {}
    /\ ies # <<>> => Judged([Shown EXCEPT !.ies[1][2] = Append(@, 9)]) # {}
=============================================================================
