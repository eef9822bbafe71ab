------------------------------ MODULE AssocCost ------------------------------
(***************************************************************************)
(* What the operations of AssocTrace may cost (C14).  The bounds follow    *)
(* from the hash values: the path to a key is one level longer than the    *)
(* longest prefix its hash shares with that of another key held, and only  *)
(* keys of one hash value are ever kept in one unordered node.             *)
(* As in SeqCost, G tracks which variables may share structure; V names    *)
(* the last few versions a variable has gone through, so that the cost of  *)
(* comparing a value with a recent version of it is bounded too.           *)
(***************************************************************************)
EXTENDS AssocTrace, SequencesExt

VARIABLES G, gid, V, shape, digits,
          W     \* <<transient, key, n>>: n writes to the key by the transient (without counts);
                \* each makes one more node on the path its own
cvars == <<G, gid, V, shape, digits, W>>

BR == 2 ^ shape[1]
C0 == 16
PE == 2         \* objects in an entry
Alloc == e.cost[1]
Copied == e.cost[2]
Compared == e.cost[3]

ND == Len(digits[1])
RECURSIVE CP(_, _, _)
CP(k, j, i) == IF i > ND THEN ND ELSE IF digits[k][i] # digits[j][i] THEN i - 1 ELSE CP(k, j, i + 1)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Depth(f, k) == 1 + MaxOf({0} \cup {CP(k, j, 1) : j \in Keys(f) \ {k}})
Coll(f, k) == Cardinality({j \in Keys(f) : CP(k, j, 1) = ND})

SoleIn(r) == /\ G[r] # {} /\ \A q \in Regs : q # r => G[q] \cap G[r] = {}
Nth(r, k) == LET h == {w \in W : w[1] = r /\ w[2] = k} IN IF h = {} THEN 0 ELSE (CHOOSE w \in h : TRUE)[3]
InPlace == e.s = e.d /\ \/ shape[2] = 1 /\ (e.m % 2 = 1 \/ K[e.s] \notin Persistent) /\ SoleIn(e.s)
                        \/ Nth(e.s, e.a) > Depth(R[e.s], e.a)
Writes == {"insert", "update", "updex"}
Owners ==
    IF shape[2] = 1 THEN {}
    ELSE IF e.op \in {"diff", "trav"} THEN W
    ELSE IF e.op \in Writes /\ e.s = e.d /\ K[e.d] \notin Persistent /\ R'[e.d][e.a] # 0
         THEN {w \in W : w[1] # e.d \/ w[2] # e.a} \cup {<<e.d, e.a, Nth(e.d, e.a) + 1>>}
    ELSE {w \in W : w[1] \notin {e.s, e.d} /\ ("e" \in DOMAIN e => w[1] # e.e)}

Within(a, c) == Alloc <= a /\ Copied <= c
Change == LET f == R[e.s]
              d == Depth(f, e.a)
              c == Coll(f, e.a) IN
    IF e.op \in {"erase","updex"} /\ f[e.a] = 0 THEN Within(0, c + C0)  \* the key function of a table returns a copy of the key
    ELSE IF InPlace /\ f[e.a] # 0 /\ e.op # "erase" THEN Within(0, PE * (2 * c + d + 2) + C0)
    ELSE Within(2 * d + 4, PE * (BR + 2 * c + 2 * d + 2) + C0)
\* versions the two have in common, by how many operations they are apart
Dist == {i + j - 2 : <<i, j>> \in {p \in (1..Len(V[e.s])) \X (1..Len(V[e.e])) : V[e.s][p[1]] = V[e.e][p[2]]}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DiffCost == IF Dist = {} THEN TRUE
            ELSE LET n == MinOf(Dist)
                     ks == Keys(R[e.s]) \cup Keys(R[e.e])
                     ch == {k \in ks : R[e.s][k] # R[e.e][k]} IN
                 IF n = 0 THEN Compared = 0
                 ELSE LET worst == MaxOf({1} \cup {Coll(R[e.s], k) + Coll(R[e.e], k) : k \in ks})
                          deep == MaxOf({1} \cup {Depth(R[e.s], k) : k \in ks} \cup {Depth(R[e.e], k) : k \in ks}) IN
                      Compared <= n * PE * (BR + worst * worst) * (deep + 1)
Cost ==
  CASE e.op \in {"copy", "swap", "selfmove", "transient", "persistent", "new"} ->
         Alloc <= (IF shape[2] = 0 THEN 2 ELSE 0) /\ Copied = 0
    [] e.op = "from" -> LET n == IF "jumps" \in DOMAIN e THEN Len(e.jumps) \div 2 ELSE 0 IN
                        Within(n * (2 * ND + 4) + 2, n * (PE * (BR + 2 * n + 2 * ND + 4) + C0))
    [] e.op = "diff" -> Alloc = 0 /\ DiffCost
    [] e.op = "trav" -> Alloc = 0
    [] OTHER -> Change

Origins ==
  LET put(g) == [r \in Regs |-> IF r = e.d THEN g
                                ELSE IF r \in Cons(e.s, e.m) THEN G[r] \cup G[e.d] ELSE G[r]] IN
  CASE e.op \in {"new", "from"} -> put({gid})
    [] e.op \in {"diff", "trav", "selfmove"} -> G
    [] e.op = "swap" -> [G EXCEPT ![e.d] = G[e.s], ![e.s] = G[e.d]]
    [] OTHER -> put(G[e.s])
Cut(q) == IF Len(q) > 5 THEN SubSeq(q, 1, 5) ELSE q
Versions ==
  CASE e.op \in {"new", "from"} -> [V EXCEPT ![e.d] = <<gid>>]
    [] e.op \in {"diff", "trav", "selfmove"} -> V
    [] e.op = "swap" -> [V EXCEPT ![e.d] = V[e.s], ![e.s] = V[e.d]]
    [] e.op \in {"copy", "transient", "persistent"} -> [V EXCEPT ![e.d] = V[e.s]]
    [] OTHER -> [V EXCEPT ![e.d] = Cut(<<gid>> \o V[e.s])]

CInit == Init /\ G = <<>> /\ gid = 1 /\ V = <<>> /\ shape = <<1, 1>> /\ digits = <<<<0>>>> /\ W = {}
CReset == /\ Reset /\ shape' = e.shape /\ digits' = e.digits /\ gid' = 1 /\ W' = {}
          /\ G' = [r \in e.lo..e.hi |-> {-r}] /\ V' = [r \in e.lo..e.hi |-> <<-r>>]
CStep == /\ Next /\ e.op # "init"
         /\ gid' = gid + 1 /\ UNCHANGED <<shape, digits>>
         /\ Cost /\ G' = Origins /\ V' = Versions /\ W' = Owners
CSpec == CInit /\ [][CReset \/ CStep]_<<tvars, cvars>>
==============================================================================
