------------------------------- MODULE Overlap -------------------------------
(***************************************************************************)
(* Calls of several users of the library that overlap: a call is a number  *)
(* of steps, another user's steps may come between any two, and a call may *)
(* be dropped at any of them (a timeout, an interrupt) and made again.     *)
(*                                                                         *)
(* A call builds its result in a place to work.  When every call has a     *)
(* place of its own, no schedule is seen in any result (Alone).  With one  *)
(* place for all (Shared), or with a place that is cleared by whoever      *)
(* finishes instead of whoever starts (~Fresh), some schedule is: these    *)
(* configurations are checked to fail, so the property is not empty.       *)
(* The schedules of this module are run over the real code (C27).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Steps, Shared, Fresh, Limit
DEPTH == atoi(IOEnv.DEPTH)
VARIABLES at,        \* user -> step of the call, 0: in no call
          arg,       \* user -> argument of the call
          work,      \* place -> what it holds
          done,      \* user -> <<argument, result>> of the calls made
          h
vars == <<at, arg, work, done, h>>
Users == 1..N
Args == {1, 2}
Place(p) == IF Shared THEN 1 ELSE p
Init == /\ at = [p \in Users |-> 0] /\ arg = [p \in Users |-> 1]
        /\ work = [p \in Users |-> <<>>] /\ done = [p \in Users |-> {}] /\ h = <<>>
Did(p, k) == Len(h) < DEPTH /\ h' = Append(h, <<p, k>>)
Start(p) == /\ Did(p, "go") /\ at[p] = 0
            /\ \E a \in Args : /\ arg' = [arg EXCEPT ![p] = a]
                               /\ work' = [work EXCEPT ![Place(p)] = IF Fresh THEN <<a>> ELSE Append(@, a)]
            /\ at' = [at EXCEPT ![p] = 1] /\ UNCHANGED done
Step(p) == /\ Did(p, "go") /\ at[p] \in 1..(Steps - 1)
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ work' = [work EXCEPT ![Place(p)] = IF Len(@) < Limit THEN Append(@, arg[p]) ELSE @]
           /\ UNCHANGED <<arg, done>>
Finish(p) == /\ Did(p, "go") /\ at[p] = Steps
             /\ done' = [done EXCEPT ![p] = @ \cup {<<arg[p], work[Place(p)]>>}]
             /\ at' = [at EXCEPT ![p] = 0]
             /\ work' = [work EXCEPT ![Place(p)] = <<>>] /\ UNCHANGED arg
Drop(p) == /\ Did(p, "drop") /\ at[p] > 0
           /\ at' = [at EXCEPT ![p] = 0] /\ UNCHANGED <<arg, work, done>>
Next == \E p \in Users : Start(p) \/ Step(p) \/ Finish(p) \/ Drop(p)
Spec == Init /\ [][Next]_vars
Of(a) == [i \in 1..Steps |-> a]
Alone == \A p \in Users : \A d \in done[p] : d[2] = Of(d[1])
TypeOK == \A p \in Users : at[p] \in 0..Steps
View == <<at, arg, work, done>>
NoH == Len(h) < DEPTH
Emit == Len(h) = DEPTH => PrintT("BEH:" \o ToJson(h))
=============================================================================
