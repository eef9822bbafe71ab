------------------------------- MODULE SeqGen -------------------------------
(***************************************************************************)
(* Enumerates, for the specification SeqSpec, every behaviour of the form  *)
(*                                                                         *)
(*     build a value (of every small size, by each of several routes)      *)
(*     share it or not, move it or not, or turn it into a transient        *)
(*     one operation, at every position                                    *)
(*     look at it, or do one thing more                                    *)
(*                                                                         *)
(* The behaviours are run by the drivers on the real code and what happens *)
(* is judged by SeqTrace.  Sizes are chosen around the limits of leaves    *)
(* (LEAF elements), nodes (BR children) and trees of the configuration.    *)
(* A command is <<op, d, s, e, m, a, b, c>>, as in SeqTrace.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, IOUtils, Json, TLC

LEAF == atoi(IOEnv.LEAF)      \* elements per leaf
BR == atoi(IOEnv.BR)          \* children per node
MAXN == atoi(IOEnv.MAXN)      \* all sizes up to here
PART == IOEnv.PART            \* which part to enumerate
DEEP == atoi(IOEnv.DEEP)      \* how much of it

C(op, d, s, x, m, a, b, c) == <<op, d, s, x, m, a, b, c>>
Near(n) == {k \in {n - 1, n, n + 1} : k >= 0}
Edges == Near(0) \cup Near(LEAF) \cup Near(2 * LEAF) \cup Near(LEAF * BR) \cup Near(LEAF * BR + LEAF)
         \cup Near(LEAF * BR * BR) \cup Near(LEAF * BR * BR + LEAF)
Few == {n \in Edges \cup {LEAF * 2 + 1, LEAF * BR * 2 + 1} : n <= MAXN}
Sizes == (0..MAXN)
LastSize == IF DEEP > 0 THEN Edges ELSE {}

\* ---- how a value of family F comes about: script, size
Regular == {[c |-> <<C("range", 1, 0, 0, 0, n, 1, 0)>>, n |-> n] : n \in Sizes \cup LastSize}
Joined == {[c |-> <<C("range", 1, 0, 0, 0, a, 1, 0), C("range", 2, 0, 0, 0, b, 5000, 0),
                    C("concat", 1, 1, 2, 0, 0, 0, 0)>>, n |-> a + b] : a \in Few \ {0}, b \in Few \ {0}}
Dropped == {[c |-> <<C("range", 1, 0, 0, 0, n, 1, 0), C("drop", 1, 1, 0, 0, k, 0, 0)>>, n |-> n - k] :
              n \in {x \in Few : x > 2 * LEAF}, k \in Few \ {0}}
Cut == {[c |-> <<C("range", 1, 0, 0, 0, n, 1, 0), C("range", 2, 0, 0, 0, LEAF + 1, 5000, 0),
                 C("concat", 1, 2, 1, 0, 0, 0, 0), C("take", 1, 1, 0, 0, n, 0, 0)>>, n |-> n] :
              n \in {x \in Few : x > LEAF}}
Fronted == {[c |-> <<C("range", 1, 0, 0, 0, n, 1, 0), C("push_front", 1, 1, 0, 0, 0, 900, 0),
                     C("push_front", 1, 1, 0, 0, 0, 901, 0)>>, n |-> n + 2] : n \in Few}
Relaxed == {x \in Joined \cup Dropped \cup Cut \cup Fronted : x.n > 0}
Bases == Regular \cup Relaxed

\* ---- one operation on register s with result in d, at every position
At1(s, d, n, m) ==
    {<<C("take", d, s, 0, m, k, 0, 0)>> : k \in 0..n} \cup
    {<<C("set", d, s, 0, m, k, 7777, 0)>> : k \in 0..(n - 1)} \cup
    {<<C("update", d, s, 0, m, k, 10, 0)>> : k \in 0..(n - 1)} \cup
    {<<C("push_back", d, s, 0, m, 0, 7777, 0)>>}
At2(s, d, n, m) ==
    {<<C("drop", d, s, 0, m, k, 0, 0)>> : k \in 0..n}
At3(s, d, n, m) ==
    {<<C("insert", d, s, 0, m, k, 7777, 0)>> : k \in 0..n} \cup
    {<<C("erase", d, s, 0, m, k, 0, 0)>> : k \in 0..(n - 1)} \cup
    {<<C("erase2", d, s, 0, m, k, j, 0)>> : k \in 0..n, j \in {x \in {LEAF, 2 * LEAF + 1, n - 1, n} : x >= 0 /\ x <= n}}

After(d) == <<C("push_back", d, d, 0, 1, 0, 8888, 0)>>
Flat(S) == FlattenSeq(SetToSeq(S))

\* The operand is kept, and lives on in register 1; or it is given away, and nothing
\* else holds on to it (it is built anew each time); or it is given away, but a copy
\* of it lives on in register 3.
Plain(x, P) == x.c \o Flat({p \o After(4) : p \in P})
Alone(x, P) == Flat({x.c \o p \o After(4) : p \in P})
Shared(x, P) == x.c \o <<C("copy", 3, 1, 0, 0, 0, 0, 0)>>
                  \o Flat({<<C("copy", 1, 3, 0, 0, 0, 0, 0)>> \o p \o After(4) : p \in P})
All(x, s, d, m) == At1(s, d, x.n, m) \cup At2(s, d, x.n, m) \cup At3(s, d, x.n, m)
OnF == {Plain(x, All(x, 1, 4, 0)) : x \in Bases}
OnM == {Alone(x, All(x, 1, 4, 1)) : x \in Bases} \cup {Shared(x, All(x, 1, 4, 1)) : x \in Bases}

\* in a transient: of a value that lives on; of one that does not; and one that has
\* nodes of its own already, when a snapshot of it is taken
T1(x) == x.c \o Flat({<<C("transient", 7, 1, 0, 0, 0, 0, 0)>> \o p \o
                      <<C("persistent", 4, 7, 0, 0, 0, 0, 0), C("push_back", 7, 7, 0, 0, 0, 8888, 0)>> :
                        p \in At1(7, 7, x.n, 0) \cup At2(7, 7, x.n, 0)})
T2(x) == Flat({x.c \o <<C("transient", 7, 1, 0, 1, 0, 0, 0)>> \o p \o
               <<C("persistent", 4, 7, 0, 0, 0, 0, 0), C("push_back", 7, 7, 0, 0, 0, 8888, 0)>> :
                 p \in At1(7, 7, x.n, 0) \cup At2(7, 7, x.n, 0)})
T3(x) == x.c \o Flat({<<C("transient", 7, 1, 0, 0, 0, 0, 0), C("push_back", 7, 7, 0, 0, 0, 6000, 0),
                        C("take", 7, 7, 0, 0, x.n, 0, 0), C("persistent", 3, 7, 0, 0, 0, 0, 0)>> \o p \o
                      <<C("persistent", 4, 7, 0, 0, 0, 0, 0), C("push_back", 7, 7, 0, 0, 0, 8888, 0)>> :
                        p \in At1(7, 7, x.n, 0) \cup At2(7, 7, x.n, 0)})
OnT == {T1(x) : x \in Bases} \cup {T2(x) : x \in Bases} \cup {T3(x) : x \in Bases}

\* concatenation of any two bases, each kept elsewhere or given away
Second(c) == [i \in 1..Len(c) |-> [c[i] EXCEPT
                   ![2] = CASE @ = 1 -> 5 [] @ = 2 -> 6, ![3] = CASE @ = 1 -> 5 [] @ = 2 -> 6 [] OTHER -> 0,
                   ![4] = CASE @ = 1 -> 5 [] @ = 2 -> 6 [] OTHER -> 0,
                   ![7] = IF c[i][1] = "range" THEN @ + 20000 ELSE @]]
Ends == {x \in Regular : x.n \in Few} \cup {x \in Relaxed : DEEP > 0 \/ x.n % 3 = 1}
CatAll(x, y) == \* left and right held elsewhere or not, given away or not
    LET L == x.c R == Second(y.c)
        cat(m) == <<C("concat", 4, 1, 5, m, 0, 0, 0)>> \o After(4) IN
    L \o R \o cat(0) \o cat(1) \o L \o cat(2) \o R \o cat(3) \o L \o R
      \o <<C("copy", 3, 1, 0, 0, 0, 0, 0)>> \o cat(1) \o <<C("copy", 1, 3, 0, 0, 0, 0, 0)>> \o cat(3) \o R
      \o L \o <<C("copy", 3, 5, 0, 0, 0, 0, 0)>> \o cat(2) \o <<C("copy", 5, 3, 0, 0, 0, 0, 0)>> \o cat(3)
OnConcat == {Flat({CatAll(x, y) : y \in Ends}) : x \in Ends}
AppAll(x, y) ==
    Flat({x.c \o Second(y.c)
            \o <<C("transient", 7, 1, 0, v % 2, 0, 0, 0), C("transient", 8, 5, 0, v \div 2, 0, 0, 0)>>
            \o (IF q = 1 THEN <<C("push_back", 7, 7, 0, 0, 0, 6000, 0), C("push_back", 8, 8, 0, 0, 0, 6500, 0)>>
                         ELSE <<>>)
            \o <<C(op, 7, 0, 8, m, 0, 0, 0), C("push_back", 7, 7, 0, 0, 0, 8888, 0)>> :
             v \in 0..3, q \in {0, 1}, m \in {0, 2}, op \in {"append", "prepend"}})
OnAppend == {Flat({AppAll(x, y) : y \in Ends}) : x \in Ends}

\* every subrange, traversed by every means (12 of them)
Pairs_(n) == {q \in (0..n) \X (0..n) : q[1] <= q[2]}
Seen == {y \in Bases : y.n <= MAXN}
OnTrav == {x.c \o Flat({<<C("trav", 0, 1, 0, 0, q[1], q[2], (q[1] + q[2] * 5 + w) % 12)>> :
                        q \in Pairs_(x.n), w \in IF DEEP > 0 THEN 0..11 ELSE {1, 3, 6}}) : x \in Seen}
OnChunk == {x.c \o Flat({<<C("chunkp", 0, 1, 0, 0, q[1], q[2], w)>> :
                        q \in Pairs_(x.n), w \in {0, 1, LEAF + 1}}) : x \in Seen}
OnIter == {x.c \o Flat({<<C("iter", 0, 1, 0, 0, 0, 0, 0) \o <<i, j - i, 0 - j>>>> :
                        i \in 0..x.n, j \in 0..x.n}) : x \in Seen}

\* ---- vector and array
B2(r, n) == [c |-> <<C("range", r, 0, 0, 0, n, 1, 0)>>, n |-> n]
On(r, t, sizes) ==
    {(B2(r, n).c \o Flat({p \o After(r + 1) : p \in At1(r, r + 1, n, 0)})
      \o Flat({B2(r, n).c \o p \o After(r + 1) : p \in At1(r, r + 1, n, 1)})
      \o B2(r, n).c \o <<C("copy", r + 2, r, 0, 0, 0, 0, 0)>>
      \o Flat({<<C("copy", r, r + 2, 0, 0, 0, 0, 0)>> \o p \o After(r + 1) : p \in At1(r, r + 1, n, 1)})
      \o B2(r, n).c \o
      Flat({<<C("transient", t, r, 0, 0, 0, 0, 0)>> \o p
            \o <<C("persistent", r + 1, t, 0, 0, 0, 0, 0), C("push_back", t, t, 0, 0, 0, 8888, 0)>> : p \in At1(t, t, n, 0)})
      \o Flat({B2(r, n).c \o <<C("transient", t, r, 0, 1, 0, 0, 0)>> \o p
            \o <<C("persistent", r + 1, t, 0, 0, 0, 0, 0), C("push_back", t, t, 0, 0, 0, 8888, 0)>> : p \in At1(t, t, n, 0)}))
       : n \in sizes}
OnV == On(11, 15, Sizes \cup LastSize)
OnA == On(17, 21, {n \in Sizes : n <= 20})

Plans == CASE PART = "F" -> OnF [] PART = "M" -> OnM [] PART = "T" -> OnT [] PART = "concat" -> OnConcat
           [] PART = "append" -> OnAppend [] PART = "trav" -> OnTrav
           [] PART = "chunk" -> OnChunk [] PART = "iter" -> OnIter
           [] PART = "V" -> OnV [] PART = "A" -> OnA

VARIABLE n
Init == n = Cardinality(Plans)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
Written == ndJsonSerialize(IOEnv.OUT, SetToSeq(Plans))
=============================================================================
