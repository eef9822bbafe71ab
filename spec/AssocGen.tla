------------------------------ MODULE AssocGen ------------------------------
(***************************************************************************)
(* Enumerates, for AssocSpec,                                              *)
(*   PART = "step": every operation on every value over the keys 1..U, the *)
(*      operand kept, given away unshared, given away while a copy lives   *)
(*      on, or as a transient;                                             *)
(*   PART = "pairs": the diff (and equality) of every two values, one made *)
(*      from scratch or derived from the other;                            *)
(*   PART = "chain": insertion and erasure of keys in every order,         *)
(* for every assignment of hash values to the keys (up to renaming).  The  *)
(* driver translates hash number H into bits: 0 and 1 differ in the first  *)
(* level of the trie, 0 and 2 in the second, 0 and 3 only in the last; two *)
(* keys with the same number collide entirely.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, IOUtils, Json, TLC
U == atoi(IOEnv.U)
NH == atoi(IOEnv.NH)          \* hash numbers 0..NH-1
FAM == atoi(IOEnv.FAM)        \* 0 set, 1 map, 2 table
NV == IF FAM = 0 THEN 1 ELSE atoi(IOEnv.NV)  \* values 1..NV
PART == IOEnv.PART
P == FAM * 8 + 1              \* persistent registers P .. P+4, transients T .. T+2
T == P + 5

C(op, d, s, x, m, a, b, c) == <<op, d, s, x, m, a, b, c>>
Flat(S) == FlattenSeq(SetToSeq(S))
\* hash assignments, up to renaming of keys
Hashes == {h \in [1..U -> 0..NH-1] : \A k \in 1..(U - 1) : h[k] <= h[k + 1]}
Values == [1..U -> 0..NV]
Start(h) == <<C("init", 0, 0, FAM, 0, U, 20, 0) \o h>>
RECURSIVE Ent(_, _)
Ent(f, k) == IF k > U THEN <<>> ELSE (IF f[k] = 0 THEN <<>> ELSE <<k, f[k]>>) \o Ent(f, k + 1)
RECURSIVE EntBack(_, _)
EntBack(f, k) == IF k = 0 THEN <<>> ELSE (IF f[k] = 0 THEN <<>> ELSE <<k, f[k]>>) \o EntBack(f, k - 1)
From(d, f) == <<C("from", d, 0, 0, 0, 0, 0, 0) \o Ent(f, 1)>>
FromBack(d, f) == <<C("from", d, 0, 0, 0, 0, 0, 0) \o EntBack(f, U)>>

Ops(d, s, m) ==
    {<<C("insert", d, s, 0, m, k, 1, 0)>> : k \in 1..U} \cup
    {<<C("erase", d, s, 0, m, k, 0, 0)>> : k \in 1..U} \cup
    (IF FAM = 0 THEN {} ELSE
        {<<C("update", d, s, 0, m, k, 7, 0)>> : k \in 1..U} \cup
        {<<C("updex", d, s, 0, m, k, 7, 0)>> : k \in 1..U})
Step(h, f) ==
    Start(h) \o From(P, f)
    \o Flat(Ops(P + 1, P, 0))
    \o <<C("copy", P + 2, P, 0, 0, 0, 0, 0)>>
    \o Flat({<<C("copy", P, P + 2, 0, 0, 0, 0, 0)>> \o p : p \in Ops(P + 1, P, 1)})
    \o <<C("new", P + 2, 0, 0, 0, 0, 0, 0)>>
    \o Flat({FromBack(P, f) \o p : p \in Ops(P + 1, P, 1)})
    \o From(P, f)
    \o Flat({<<C("transient", T, P, 0, 0, 0, 0, 0)>> \o p \o <<C("persistent", P + 3, T, 0, 0, 0, 0, 0)>> : p \in Ops(T, T, 0)})
    \o Flat({From(P, f) \o <<C("transient", T, P, 0, 1, 0, 0, 0)>> \o p \o <<C("persistent", P + 3, T, 0, 0, 0, 0, 0)>>
               \o <<C("erase", T, T, 0, 0, 1, 0, 0), C("insert", T, T, 0, 0, 2, 1, 0)>> : p \in Ops(T, T, 0)})
\* what turns f into g
Derive(f, g, d) == Flat({<<IF g[k] = 0 THEN C("erase", d, d, 0, k % 2, k, 0, 0)
                                       ELSE C("insert", d, d, 0, k % 2, k, g[k], 0)>> :
                          k \in {x \in 1..U : f[x] # g[x]}})
Pair(h, f) ==
    Start(h) \o From(P, f)
    \o Flat({(IF f[1] = g[1] THEN From(P + 1, g) ELSE FromBack(P + 1, g))
             \o <<C("diff", 0, P, P + 1, 0, 0, 0, 0), C("diff", 0, P + 1, P, 0, 0, 0, 1)>>
             \o <<C("copy", P + 2, P, 0, 0, 0, 0, 0)>> \o Derive(f, g, P + 2)
             \o <<C("diff", 0, P, P + 2, 0, 0, 0, 1), C("diff", 0, P + 2, P, 0, 0, 0, 0)>> : g \in Values})
Chain(h) ==
    Start(h) \o
    Flat({<<C("new", P, 0, 0, 0, 0, 0, 0)>>
          \o [k \in 1..U |-> C("insert", P, P, 0, k % 2, o[k], 1, 0)]
          \o <<C("trav", 0, P, 0, 0, U \div 2, 0, 0)>>
          \o [k \in 1..U |-> C("erase", P, P, 0, (k + q) % 2, o[((k * (1 + q) + q) % U) + 1], 0, 0)] :
            o \in {x \in [1..U -> 1..U] : \A i, j \in 1..U : x[i] = x[j] => i = j}, q \in {0, 1}})
Plans == CASE PART = "step" -> {Step(h, f) : h \in Hashes, f \in Values}
           [] PART = "pairs" -> {Pair(h, f) : h \in Hashes, f \in Values}
           [] PART = "chain" -> {Chain(h) : h \in Hashes}
VARIABLE n
Init == n = Cardinality(Plans)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
Written == ndJsonSerialize(IOEnv.OUT, SetToSeq(Plans))
=============================================================================
