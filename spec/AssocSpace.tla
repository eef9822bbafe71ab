----------------------------- MODULE AssocSpace -----------------------------
(***************************************************************************)
(* What a set, map or table keeps alive (C17); see SeqSpace.  The trie is  *)
(* determined by the hash values of the keys: a key whose prefix no other  *)
(* has lies in the node above, keys of one hash value in one node at the   *)
(* bottom.  So what a value occupies depends on what it contains, and not  *)
(* on how it came about.                                                   *)
(***************************************************************************)
EXTENDS AssocTrace

VARIABLE digits   \* key -> digits of its hash value, one for each level
ND == Len(digits[1])
RECURSIVE Nodes(_, _)
\* nodes of the trie of the keys ks, which agree in the first i digits
Nodes(ks, i) ==
    IF ks = {} \/ (i > 0 /\ Cardinality(ks) = 1) THEN 0
    ELSE IF i = ND THEN 1
    ELSE LET kid(x) == {k \in ks : digits[k][i + 1] = x}
             ds == {digits[k][i + 1] : k \in ks}
             RECURSIVE sum(_)
             sum(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN Nodes(kid(x), i + 1) + sum(D \ {x}) IN
         1 + sum(ds)
PE == IF K[e.s] \in {"S", "s"} THEN 1 ELSE 2    \* objects in an entry

Occupied ==
    /\ e.ret[4] = PE * Size(R[e.s])
    /\ \A i \in 1..3 : e.ret[i] = e.ret[i + 3]
    \* a node is a block for its children and one for its entries
    /\ e.ret[2] <= 2 * Nodes(Keys(R[e.s]), 0)
TSpace == Ev("space") /\ Keep(e.s) /\ Seen /\ Occupied

PInit == Init /\ digits = <<<<0>>>>
PReset == Reset /\ digits' = e.digits
PStep == (\/ TSpace /\ UNCHANGED U0
          \/ Next /\ e.op # "init") /\ UNCHANGED digits
PSpec == PInit /\ [][PReset \/ PStep]_<<tvars, digits>>
=============================================================================
