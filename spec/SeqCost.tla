------------------------------- MODULE SeqCost -------------------------------
(***************************************************************************)
(* What the operations of SeqTrace may cost (C14): how many blocks they    *)
(* allocate and how many elements they copy or move, as a function of the  *)
(* branching constants and of the logarithm of the size, never of the size *)
(* itself.                                                                 *)
(*                                                                         *)
(* The specification also tracks which variables may share structure: G[r] *)
(* is the set of origins of what r holds.  A variable none of whose origins*)
(* any other variable has (Sole) is changed in place by an operation on an *)
(* rvalue or on a transient, which then copies no elements; a run of       *)
(* push_backs on it allocates one leaf per leaf's worth of elements.       *)
(***************************************************************************)
EXTENDS SeqTrace

VARIABLES G,     \* register -> origins (0: holds the same piece twice)
          gid,   \* next new origin
          big,   \* longest sequence so far
          P,     \* register -> <<push_backs, blocks, elements copied>> of the current run of them
          shape, \* <<bits, leaf bits, 1 if reference counted>>
          W      \* <<transient, index>> whose path is the transient's own (without counts); -1: its
                 \* array, -2: its last leaf
cvars == <<G, gid, big, P, shape, W>>

BR == 2 ^ shape[1]
LF == 2 ^ shape[2]
IsArr(r) == K[r] \in {"A", "a"}
\* Levels above the leaves.  Nodes made by concatenation are kept at least so full that
\* two levels multiply by the branching factor.
RECURSIVE Levels(_, _, _)
Levels(n, cap, by) == IF cap >= n THEN 0 ELSE 1 + Levels(n, cap * by, by)
Half == IF BR <= 8 THEN 2 ELSE BR \div 4
H == 2 + Levels(big, LF, Half)

Alloc == e.cost[1]
Copied == e.cost[2]
Compared == e.cost[3]
C0 == 8        \* what the driver's own temporaries cost

\* blocks: a path, with the sizes of relaxed nodes kept apart; a seam of two paths
Path == 2 * (H + 2)
Seam == (H + 1) * (2 * BR + 2)
PathEls == 2 * LF + C0
SeamEls == (2 * BR + 3) * LF + C0

SoleIn(g, r) == /\ 0 \notin g[r] /\ g[r] # {}
                /\ \A q \in Regs : q # r => g[q] \cap g[r] = {}
Sole(r) == shape[3] = 1 /\ SoleIn(G, r)
Transient_(r) == K[r] \notin Persistent
InPlace == /\ e.s = e.d
           /\ \/ (e.m % 2 = 1 \/ Transient_(e.s)) /\ Sole(e.s)
              \/ IsArr(e.s) /\ <<e.s, -1>> \in W
              \/ e.op = "push_back" /\ <<e.s, -2>> \in W
              \/ e.op \in {"set", "update"} /\ <<e.s, e.a>> \in W
\* Without reference counts a transient knows what it has made since it was last shared:
\* the whole of an array, the last leaf after a push_back, the path to an element that was set.
Owners ==
    LET mine == e.s = e.d /\ e.d # 0 /\ Transient_(e.d)
        made == CASE ~mine -> {}
                  [] IsArr(e.d) /\ e.op \in {"set", "update", "push_back", "take"} -> {<<e.d, -1>>}
                  [] e.op = "push_back" -> {<<e.d, -2>>}
                  [] e.op \in {"set", "update"} -> {<<e.d, e.a>>}
                  [] OTHER -> {}
        looks == {"at", "look", "iter", "acc", "allof", "chunkp", "trav"} IN
    IF shape[3] = 1 THEN {}
    ELSE IF e.op \in looks THEN W
    ELSE IF made # {} THEN W \cup made
    ELSE {w \in W : w[1] \notin {e.s, e.e, e.d}}

Within(a, c) == Alloc <= a /\ Copied <= c
Free_ == {"copy", "swap", "selfmove", "transient", "persistent", "toflex", "new",
          "at", "look", "iter", "acc", "allof", "chunkp"}
Cost ==
  LET n == IF e.s \in Regs /\ R[e.s] # Moved THEN RLen(R[e.s]) ELSE 0
      arr == IF e.s \in Regs /\ e.s # 0 THEN IsArr(e.s) ELSE IsArr(e.d) IN
  CASE arr /\ shape[3] = 0 /\ e.op \in {"transient", "persistent"} -> Within(2, n)
    [] e.op \in Free_ ->
         \* the tokens of the other transience policies are blocks too
         /\ Alloc <= (IF e.op \in {"transient", "copy", "new", "toflex", "persistent"} /\ shape[3] = 0 THEN 2 ELSE 0)
         /\ Copied <= (IF e.op \in {"at", "look", "iter"} THEN C0 ELSE 0)
    [] e.op = "trav" -> Alloc = 0
    [] e.op \in {"fill", "range"} -> Within(2 * (e.a \div LF) + Path, 3 * e.a + PathEls)
    [] arr /\ e.op \in {"set", "update"} -> IF InPlace THEN Within(0, C0) ELSE Within(1, n + C0)
    [] arr -> Within(1, n + C0)
    [] e.op \in {"set", "update"} -> IF InPlace THEN Within(0, C0) ELSE Within(Path, LF + C0)
    [] e.op = "push_back" -> IF InPlace THEN Within(Path, C0) ELSE Within(Path, LF + C0)
    [] e.op \in {"take", "drop"} -> Within(Path, PathEls)
    [] e.op \in {"push_front", "concat", "append", "prepend"} -> Within(Seam, SeamEls)
    [] e.op \in {"insert", "erase", "erase2"} -> Within(Seam + 3 * Path, SeamEls + 3 * PathEls)
    [] e.op = "insertv" -> Within(2 * Seam + 2 * Path, 2 * SeamEls + 2 * PathEls)
    [] OTHER -> TRUE

\* a run of push_backs on a variable that shares with none
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Amortised(p, n) ==
    IF K[e.s] \in {"A", "a"} THEN p[2] <= 2 + Log2(p[1] + 1) /\ p[3] <= 3 * n + p[1] * C0
    ELSE p[2] <= Path + 1 + (p[1] \div LF) + 2 * (p[1] \div (LF * (BR - 1))) /\ p[3] <= p[1] * 4 + LF + C0
RunOf == IF e.op = "push_back" /\ InPlace
         THEN <<P[e.s][1] + 1, P[e.s][2] + Alloc, P[e.s][3] + Copied>> ELSE <<0, 0, 0>>

Origins ==
  LET gs == IF e.s # 0 THEN G[e.s] ELSE {}
      ge == IF e.e # 0 THEN G[e.e] ELSE {}
      two == gs \cup ge \cup (IF gs \cap ge # {} THEN {0} ELSE {})
      \* what was moved from may hold what the destination held
      left(r) == G[r] \cup G[e.d]
      put(g) == [r \in Regs |-> IF r = e.d THEN g
                                ELSE IF r \in Cons(e.s, e.e, e.m) THEN left(r) ELSE G[r]] IN
  CASE e.op \in {"new", "fill", "range"} -> put({gid})
    [] e.op \in {"at", "look", "iter", "acc", "allof", "chunkp", "trav", "selfmove"} -> G
    [] e.op = "swap" -> [G EXCEPT ![e.d] = G[e.s], ![e.s] = G[e.d]]
    [] e.op \in {"concat", "insertv"} -> put(two)
    [] e.op \in {"append", "prepend"} ->
         put(G[e.d] \cup ge \cup (IF G[e.d] \cap ge # {} THEN {0} ELSE {}))
    [] OTHER -> put(gs)

CInit == Init /\ W = {} /\ G = <<>> /\ gid = 1 /\ big = 1 /\ P = <<>> /\ shape = <<1, 1, 1>>
CReset == /\ Reset /\ shape' = e.shape
          /\ G' = [r \in 1..Len(e.kinds) |-> {-r}] /\ P' = [r \in 1..Len(e.kinds) |-> <<0, 0, 0>>]
          /\ gid' = 1 /\ big' = 1 /\ W' = {}
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
CStep == /\ Next /\ e.op # "init"
         /\ big' = Max2({big} \cup {RLen(R'[r]) : r \in Changed})
         /\ gid' = gid + 1 /\ UNCHANGED shape
         /\ Cost
         /\ G' = Origins /\ W' = Owners
         /\ P' = IF e.d = 0 THEN P ELSE [P EXCEPT ![e.d] = RunOf]
         /\ e.op = "push_back" /\ InPlace => Amortised(RunOf, RLen(R'[e.d]))
CSpec == CInit /\ [][CReset \/ CStep]_<<tvars, cvars>>
=============================================================================
