------------------------------ MODULE FreeList ------------------------------
(***************************************************************************)
(* The lock-free list of free_list_heap, one atomic step at a time.        *)
(* Careful = TRUE: popping takes the whole list, keeps the first block and *)
(* puts the rest back (as in the code).  Careful = FALSE: popping reads    *)
(* the successor of the first block and swings the head to it, which lets  *)
(* a block be handed out while in use and reads blocks that others own;    *)
(* TLC finds both (FreeListOld.cfg).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Blocks, Limit, Ops, Careful

VARIABLES head, count, next, own, parent, pc, n, m, rest, todo, bad
vars == <<head, count, next, own, parent, pc, n, m, rest, todo, bad>>
Nil == 0

Init == /\ head = Nil /\ count = 0
        /\ next = [b \in Blocks |-> Nil]
        /\ own = [t \in Threads |-> {}]       \* what the thread's user has
        /\ parent = Blocks                      \* blocks of the parent heap
        /\ pc = [t \in Threads |-> "idle"]
        /\ n = [t \in Threads |-> Nil] /\ m = [t \in Threads |-> Nil] /\ rest = [t \in Threads |-> Nil]
        /\ todo = [t \in Threads |-> Ops]
        /\ bad = FALSE

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(v, t, x) == [v EXCEPT ![t] = x]
Users == UNION {own[t] : t \in Threads}
\* reading or writing the link of a block that somebody else may be using
Foreign(t, b) == b \in parent \/ \E u \in Threads \ {t} : b \in own[u] \/ (pc[u] \in {"count", "read", "push"} /\ n[u] = b)

Begin(t) == /\ pc[t] = "idle" /\ todo[t] > 0
            /\ todo' = Set(todo, t, todo[t] - 1)
            /\ \/ /\ Go(t, "pop") /\ n' = n
               \/ \E b \in own[t] : /\ Go(t, "count") /\ n' = Set(n, t, b)
            /\ own' = IF pc'[t] = "count" THEN [own EXCEPT ![t] = @ \ {n'[t]}] ELSE own
            /\ UNCHANGED <<head, count, next, parent, m, rest, bad>>
FromParent(t) == \E b \in parent : /\ parent' = parent \ {b}
                                   /\ own' = [own EXCEPT ![t] = @ \cup {b}]
\* the careful way
Pop(t) == /\ pc[t] = "pop" /\ Careful
          /\ IF head = Nil THEN /\ IF parent # {} THEN FromParent(t) ELSE UNCHANGED <<parent, own>>
                                /\ Go(t, "idle") /\ UNCHANGED <<head, n>>
             ELSE /\ n' = Set(n, t, head) /\ head' = Nil /\ Go(t, "next") /\ UNCHANGED <<parent, own>>
          /\ UNCHANGED <<count, next, m, rest, todo, bad>>
Next_(t) == /\ pc[t] = "next" /\ rest' = Set(rest, t, next[n[t]])
            /\ bad' = (bad \/ Foreign(t, n[t]))
            /\ Go(t, IF next[n[t]] = Nil THEN "less" ELSE "back")
            /\ UNCHANGED <<head, count, next, own, parent, n, m, todo>>
Back(t) == /\ pc[t] = "back"
           /\ IF head = Nil THEN head' = rest[t] /\ Go(t, "less") ELSE head' = head /\ Go(t, "others")
           /\ UNCHANGED <<count, next, own, parent, n, m, rest, todo, bad>>
Others(t) == /\ pc[t] = "others" /\ m' = Set(m, t, head) /\ head' = Nil
             /\ Go(t, IF head = Nil THEN "back" ELSE "walk")
             /\ UNCHANGED <<count, next, own, parent, n, rest, todo, bad>>
RECURSIVE LastOf(_)
LastOf(b) == IF next[b] = Nil THEN b ELSE LastOf(next[b])
Walk(t) == /\ pc[t] = "walk"
           /\ bad' = (bad \/ Foreign(t, m[t]))
           /\ next' = [next EXCEPT ![LastOf(m[t])] = rest[t]]
           /\ rest' = Set(rest, t, m[t]) /\ Go(t, "back")
           /\ UNCHANGED <<head, count, own, parent, n, m, todo>>
Less(t) == /\ pc[t] = "less" /\ count' = count - 1 /\ Go(t, "idle")
           /\ own' = [own EXCEPT ![t] = @ \cup {n[t]}]
           /\ bad' = (bad \/ \E u \in Threads : n[t] \in own[u])
           /\ UNCHANGED <<head, next, parent, n, m, rest, todo>>
\* the careless way
PopHead(t) == /\ pc[t] = "pop" /\ ~Careful
              /\ IF head = Nil THEN /\ IF parent # {} THEN FromParent(t) ELSE UNCHANGED <<parent, own>>
                                    /\ Go(t, "idle") /\ n' = n
                 ELSE n' = Set(n, t, head) /\ Go(t, "link") /\ UNCHANGED <<parent, own>>
              /\ UNCHANGED <<head, count, next, m, rest, todo, bad>>
Link(t) == /\ pc[t] = "link" /\ m' = Set(m, t, next[n[t]])
           /\ bad' = (bad \/ Foreign(t, n[t])) /\ Go(t, "swing")
           /\ UNCHANGED <<head, count, next, own, parent, n, rest, todo>>
Swing(t) == /\ pc[t] = "swing"
            /\ IF head = n[t] THEN head' = m[t] /\ Go(t, "less") ELSE head' = head /\ Go(t, "pop")
            /\ UNCHANGED <<count, next, own, parent, n, m, rest, todo, bad>>
\* pushing
Count(t) == /\ pc[t] = "count"
            /\ IF count >= Limit \/ count < 0    \* unsigned
               THEN parent' = parent \cup {n[t]} /\ Go(t, "idle")
               ELSE parent' = parent /\ Go(t, "read")
            /\ UNCHANGED <<head, count, next, own, n, m, rest, todo, bad>>
Read(t) == /\ pc[t] = "read" /\ next' = [next EXCEPT ![n[t]] = head] /\ Go(t, "push")
           /\ UNCHANGED <<head, count, own, parent, n, m, rest, todo, bad>>
Push(t) == /\ pc[t] = "push"
           /\ IF head = next[n[t]] THEN head' = n[t] /\ Go(t, "pushed") /\ next' = next
              ELSE next' = [next EXCEPT ![n[t]] = head] /\ UNCHANGED <<head, pc>>
           /\ UNCHANGED <<count, own, parent, n, m, rest, todo, bad>>
Pushed(t) == /\ pc[t] = "pushed" /\ count' = count + 1 /\ Go(t, "idle")
             /\ UNCHANGED <<head, next, own, parent, n, m, rest, todo, bad>>
Step(t) == Begin(t) \/ Pop(t) \/ Next_(t) \/ Back(t) \/ Others(t) \/ Walk(t) \/ Less(t)
           \/ PopHead(t) \/ Link(t) \/ Swing(t) \/ Count(t) \/ Read(t) \/ Push(t) \/ Pushed(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Chain(_, _)
Chain(b, k) == IF b = Nil \/ k = 0 THEN {} ELSE {b} \cup Chain(next[b], k - 1)
Size == Cardinality(Blocks)
Listed == Chain(head, Size)
\* lists in the hands of a thread
InHand(t) == CASE pc[t] = "next" -> Chain(n[t], Size)
               [] pc[t] = "back" -> {n[t]} \cup Chain(rest[t], Size)
               [] pc[t] = "others" -> {n[t]} \cup Chain(rest[t], Size)
               [] pc[t] = "walk" -> {n[t]} \cup Chain(rest[t], Size) \cup Chain(m[t], Size)
               [] pc[t] \in {"less", "count", "read", "push"} -> {n[t]}
               [] OTHER -> {}
\* nothing is in two places, and nothing is lost
Safe == ~bad
Apart == \A t, u \in Threads : t # u => own[t] \cap own[u] = {}
Unused == \A t \in Threads : own[t] \cap (Listed \cup parent) = {}
Conserved == Careful => Blocks = parent \cup Listed \cup Users \cup UNION {InHand(t) : t \in Threads}
Limited == Careful => Cardinality((Listed \cup UNION {InHand(t) \ {n[t]} : t \in Threads})) <= Limit - 1 + Cardinality(Threads)
=============================================================================
