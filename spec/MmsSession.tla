------------------------------ MODULE MmsSession ------------------------------
(***************************************************************************)
(* A message and the files it is kept in, seen through versions: a change  *)
(* makes a new version; encodings, presentations and lists of parts are    *)
(* functions of the version; a file holds the version it was last written  *)
(* with; a version that cannot be encoded leaves the file alone.           *)
(*                                                                         *)
(* The implementation part of the model builds the encoding from the       *)
(* message, into a scratch copy of its headers; the invariants say that    *)
(* looking never makes a version, and that the file is always some whole   *)
(* encoding.  Its behaviours are stepped through real messages (C19).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Changes,     \* letters of the changes
          Looks        \* letters of the looks that leave files alone
DEPTH == atoi(IOEnv.DEPTH)
VARIABLES ver,         \* the version
          fit,         \* it can be encoded
          disk,        \* file -> version it holds, 0: there is none
          seen,        \* look -> <<version, result>> of the last time
          media,       \* the media of the pages have been read
          h
vars == <<ver, fit, disk, seen, media, h>>
Files == {"1", "2"}
Last(q) == q[Len(q)]
Init == /\ ver = 1 /\ fit = TRUE /\ disk = [f \in Files |-> 0]
        /\ seen = [k \in Looks |-> <<0, 0>>] /\ media = FALSE /\ h = <<>>
Did(x) == Len(h) < DEPTH /\ h' = Append(h, x)
Result(k) == IF k = "e" /\ ~fit THEN 0 ELSE ver
Change(x) == Did(x) /\ ver' = ver + 1 /\ media' = FALSE /\ UNCHANGED <<fit, disk, seen>>
Break == Did("B") /\ fit /\ fit' = FALSE /\ ver' = ver + 1 /\ UNCHANGED <<disk, seen, media>>
Mend == Did("F") /\ ~fit /\ fit' = TRUE /\ ver' = ver + 1 /\ UNCHANGED <<disk, seen, media>>
Look(k) == /\ Did(k) /\ seen' = [seen EXCEPT ![k] = <<ver, Result(k)>>]
           /\ media' = (media \/ (k = "e" /\ fit)) /\ UNCHANGED <<ver, fit, disk>>
Save(f) == /\ Did("w" \o f) /\ disk' = [disk EXCEPT ![f] = IF fit THEN ver ELSE @]
           /\ media' = (media \/ fit) /\ UNCHANGED <<ver, fit, seen>>
Load(f) == Did("r" \o f) /\ disk[f] # 0 /\ UNCHANGED <<ver, fit, disk, seen, media>>
(* go on with the message in a file *)
Adopt(f) == /\ Did("a" \o f) /\ disk[f] # 0 /\ ver' = ver + 1 /\ fit' = TRUE /\ media' = TRUE
            /\ UNCHANGED <<disk, seen>>
(* the media files of the pages are replaced behind the message's back *)
Touch == Did("t") /\ media /\ UNCHANGED <<ver, fit, disk, seen, media>>
Next == \/ \E x \in Changes : Change(x)
        \/ Break \/ Mend \/ Touch
        \/ \E k \in Looks : Look(k)
        \/ \E f \in Files : Save(f) \/ Load(f) \/ Adopt(f)
Spec == Init /\ [][Next]_vars
TypeOK == ver \in 1..(DEPTH + 1) /\ \A f \in Files : disk[f] \in 0..ver
(* what was seen of the version in force is what would be seen again *)
Repeatable == \A k \in Looks : seen[k][1] = ver => seen[k][2] = Result(k)
WholeFiles == \A f \in Files : disk[f] # 0 => disk[f] <= ver
LooksChangeNothing == [][ (\E k \in Looks : h' = Append(h, k)) => ver' = ver /\ disk' = disk ]_vars
FilesKept == [][ ~fit => \A f \in Files : disk'[f] = disk[f] ]_vars
Emit == Len(h) = DEPTH /\ Last(h) # "B" => PrintT("BEH:" \o ToJson(h))
=============================================================================
