---------------------------- MODULE SubmitMachine ----------------------------
(***************************************************************************)
(* The SUBMIT message object as a state machine: the attributes the        *)
(* encoder reads and writes (the pool of automatic references, the         *)
(* message reference, the data coding attribute) and what an encoding      *)
(* does to them, step by step, including encodings that fail half way.     *)
(* The invariants are the history part of C04 and C06: what an encoding    *)
(* yields is a function of the settings in force, automatic references     *)
(* are fresh, and a failed encoding or a refused setting changes no        *)
(* setting.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS POOL,        \* number of automatic references
          RECORD       \* whether draws are remembered (model checking only)

VARIABLES set,   \* the settings: text, fmt, val, klass, ref, rand
          pool,  \* references still in the pool
          mr,    \* the reference kept in the object, or -1
          dcs,   \* the data coding attribute, written by encodings
          out,   \* the result of the last operation
          draws  \* references drawn so far, most recent last (RECORD)
vars == <<set, pool, mr, dcs, out, draws>>

Texts == {"gsm1", "gsmN", "ucs1", "ucsN"}
Full == [i \in 1..POOL |-> i - 1]
Defaults == [text |-> "gsm1", fmt |-> -1, val |-> "none", klass |-> -1, ref |-> -1, rand |-> -1]
Nothing == [op |-> "none", ok |-> TRUE]

(* drawing a reference *)
Pool1(p) == IF p = <<>> THEN Full ELSE p
Draw(p)  == [id |-> Head(Pool1(p)), rest |-> Tail(Pool1(p))]

Gsm(t)   == t \in {"gsm1", "gsmN"}
Multi(t, a) == t \in {"gsmN", "ucsN"}
(* ---- what must come out: a function of the settings ---------------------- *)
Alpha(s) == IF s.fmt # -1 THEN s.fmt ELSE IF Gsm(s.text) THEN 0 ELSE 8
Encodes(s) == /\ s.val # "out-of-range"
              /\ s.fmt \in {-1, 0, 4, 8}
              /\ (Alpha(s) \in {0, 4} => Gsm(s.text))
DcsOf(s) == Alpha(s) + (IF s.klass >= 0 THEN 16 + s.klass ELSE 0)

Init == /\ set = Defaults /\ pool = Full /\ mr = -1 /\ dcs = -1 /\ out = Nothing /\ draws = <<>>

Settings == [text : Texts] \cup [fmt : {-1, 0, 4, 8, 5}]
            \cup [val : {"none", "relative", "absolute", "out-of-range"}]
            \cup [klass : {1}] \cup [ref : {-1, 0}] \cup [rand : {-1, 0}]
Apply(s, x) == [f \in DOMAIN s |-> IF f \in DOMAIN x THEN x[f] ELSE s[f]]
Assign(x) ==
    /\ set' = Apply(set, x)
    /\ mr' = IF "ref" \in DOMAIN x THEN x.ref ELSE mr
    /\ out' = [op |-> "set", ok |-> TRUE]
    /\ UNCHANGED <<pool, dcs, draws>>
Refuse(f) ==          \* an invalid value
    /\ out' = [op |-> "bad", ok |-> FALSE]
    /\ UNCHANGED <<set, pool, mr, dcs, draws>>

Remember(d, id) == IF RECORD THEN SubSeq(Append(d, id), IF Len(d) + 2 - POOL > 1 THEN Len(d) + 2 - POOL ELSE 1, Len(d) + 1) ELSE <<>>
Encode ==
    LET m1    == IF mr = -1 THEN Draw(pool) ELSE [id |-> mr, rest |-> pool]
        dr1   == IF mr = -1 THEN Remember(draws, m1.id) ELSE draws
        fmt   == Alpha(set)                         \* a local of the encoder
        fails == ~Encodes(set)
        multi == Multi(set.text, fmt)
        c     == IF set.rand # -1 THEN [id |-> set.rand, rest |-> m1.rest] ELSE Draw(m1.rest)
    IN /\ mr' = m1.id
       /\ dcs' = DcsOf(set)
       /\ UNCHANGED set
       /\ IF fails \/ ~multi
          THEN /\ pool' = m1.rest /\ draws' = dr1
               /\ out' = [op |-> "enc", ok |-> ~fails, mr |-> m1.id, dcs |-> DcsOf(set),
                          val |-> set.val, multi |-> FALSE, ref |-> -1]
          ELSE /\ pool' = c.rest
               /\ draws' = IF set.rand = -1 THEN Remember(dr1, c.id) ELSE dr1
               /\ out' = [op |-> "enc", ok |-> TRUE, mr |-> m1.id, dcs |-> DcsOf(set),
                          val |-> set.val, multi |-> TRUE, ref |-> c.id]

Next == \/ \E x \in Settings : Assign(x)
        \/ \E f \in {"number", "csca", "klass", "val"} : Refuse(f)
        \/ Encode
Spec == Init /\ [][Next]_vars

(* ---- properties ----------------------------------------------------------- *)
FunctionOfSettings ==
    out.op = "enc" => /\ out.ok = Encodes(set)
                      /\ out.ok => /\ out.dcs = DcsOf(set)
                                   /\ out.val = set.val
                                   /\ out.multi = Multi(set.text, Alpha(set))
                                   /\ out.multi /\ set.rand # -1 => out.ref = set.rand
                                   /\ set.ref # -1 => out.mr = set.ref
(* no reference twice among POOL consecutive draws *)
Fresh == \A i, j \in 1..Len(draws) : i # j => draws[i] # draws[j]
(* settings change by assignment only; a refusal changes nothing *)
OnlyAssigned == [][set' # set => out'.op = "set"]_vars
RefusalKeeps == [][~out'.ok => set' = set]_vars
(* a reference, once chosen, stays until it is set *)
ReferenceStays == [][(mr # -1 /\ out'.op = "enc") => mr' = mr]_vars
=============================================================================
