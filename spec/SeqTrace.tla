------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Trace validation: every line is one public call of the real code,       *)
(* together with everything an observer could see change: after each call  *)
(* the driver reads the complete contents of every register and logs those *)
(* that differ from the previous reading.  A line is accepted iff the      *)
(* action of SeqSpec it names is enabled and changes exactly those         *)
(* registers to exactly those contents.                                    *)
(***************************************************************************)
EXTENDS SeqSpec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<R, K, tgt, l>>

Init == l = 1 /\ R = <<>> /\ K = <<>> /\ tgt = {}
e == Trace[l]
Line == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1
Thrown == "thrown" \in DOMAIN e
\* an operation that came back normally, no exception having been lost on the way
Ev(op) == Line /\ e.op = op /\ ~Thrown /\ "swallowed" \notin DOMAIN e

Range(q) == {q[i] : i \in 1..Len(q)}
Changed == {r \in Regs : R'[r] # R[r] /\ R'[r] # Moved}
\* exactly the registers that should have changed did, to the right contents
SeenChanges ==
    /\ Changed = {c[1] : c \in Range(e.ch)}
    /\ \A c \in Range(e.ch) : c[2] = R'[c[1]]
\* operator== (and !=, both ways round: the driver logs eqbad if they disagree)
\* the variables that whoever writes this line may look at: its thread's
Own == IF "own" \in DOMAIN e THEN Range(e.own) \cap Regs ELSE Regs
SeenEqual ==
    /\ e.eqbad = 0
    /\ Range(e.eq) =
        UNION {{IF r < q THEN <<r, q>> ELSE <<q, r>> :
                    q \in {x \in Own : x # r /\ K[x] = K[r] /\ R'[x] = R'[r]}} :
               r \in {x \in Changed : K[x] \in Persistent}}
Seen == SeenChanges /\ SeenEqual

Reset == /\ Ev("init")
         /\ K' = e.kinds
         /\ R' = [r \in 1..Len(e.kinds) |-> <<>>]
         /\ tgt' = 1..Len(e.kinds)
TNew == Ev("new") /\ New(e.d, <<>>) /\ Seen
TFill == Ev("fill") /\ New(e.d, RFill(e.b, e.a)) /\ Seen
TRange == Ev("range") /\ New(e.d, RRange(e.b, e.a)) /\ Seen
TCopy == Ev("copy") /\ Copy(e.d, e.s, e.m) /\ Seen
TTransient == Ev("transient") /\ K[e.d] \notin Persistent /\ K[e.s] \in Persistent
              /\ Copy(e.d, e.s, e.m) /\ Seen
TPersistent == Ev("persistent") /\ K[e.d] \in Persistent /\ K[e.s] \notin Persistent
              /\ Copy(e.d, e.s, e.m) /\ Seen
TToFlex == Ev("toflex") /\ Copy(e.d, e.s, e.m) /\ Seen
TSwap == Ev("swap") /\ Swap(e.d, e.s) /\ Seen
TSelfMove == Ev("selfmove") /\ SelfMove(e.d) /\ Seen
TPushBack == Ev("push_back") /\ PushBack(e.d, e.s, e.b, e.m) /\ Seen
TPushFront == Ev("push_front") /\ PushFront(e.d, e.s, e.b) /\ Seen
TSet == Ev("set") /\ SetAt(e.d, e.s, e.a, e.b, e.m) /\ Seen
TUpdate == Ev("update") /\ Update(e.d, e.s, e.a, e.b, e.m) /\ Seen
TTake == Ev("take") /\ Take(e.d, e.s, e.a, e.m) /\ Seen
TDrop == Ev("drop") /\ Drop(e.d, e.s, e.a, e.m) /\ Seen
TConcat == Ev("concat") /\ Concat(e.d, e.s, e.e, e.m) /\ Seen
TInsert == Ev("insert") /\ Insert(e.d, e.s, e.a, e.b, e.m) /\ Seen
TInsertSeq == Ev("insertv") /\ InsertSeq(e.d, e.s, e.e, e.a, e.m) /\ Seen
TErase == Ev("erase") /\ Erase(e.d, e.s, e.a, e.m) /\ Seen
TEraseRange == Ev("erase2") /\ EraseRange(e.d, e.s, e.a, e.b, e.m) /\ Seen
TAppend == Ev("append") /\ Append_(e.d, e.e, e.m) /\ Seen
TPrepend == Ev("prepend") /\ Prepend(e.d, e.e, e.m) /\ Seen

\* observers
TAt == /\ Ev("at") /\ Observe(e.s) /\ Seen
       /\ IF e.a < RLen(R[e.s]) THEN e.ret = <<1, RGet(R[e.s], e.a)>>
                                ELSE e.ret = <<0, 0>>      \* out_of_range
TLook == /\ Ev("look") /\ Observe(e.s) /\ Seen      \* size, empty, front, back
         /\ LET n == RLen(R[e.s]) IN
            e.ret = IF n = 0 THEN <<0, 1, 0, 0>>
                    ELSE <<n, 0, RGet(R[e.s], 0), RGet(R[e.s], n - 1)>>
\* a traversal of [a, b): the elements visited, in order (read backwards for rbegin)
TTrav == Ev("trav") /\ Observe(e.s) /\ Seen
         /\ e.runs = RSlice(R[e.s], e.a, e.b)
\* iterator jumps: after each jump the distance to begin, the element (or -1 at
\* the end), and whether it compares before/equal the end
RECURSIVE JumpSum(_, _)
JumpSum(j, n) == IF n = 0 THEN 0 ELSE j[n] + JumpSum(j, n - 1)
TIter == Ev("iter") /\ Observe(e.s) /\ Seen
         /\ LET n == RLen(R[e.s]) IN
            \A i \in 1..Len(e.jumps) :
              LET p == JumpSum(e.jumps, i) IN
              e.ret[i] = <<p, IF p < n THEN RGet(R[e.s], p) ELSE -1,
                           IF p < n THEN 1 ELSE 0, IF p = n THEN 1 ELSE 0>>
\* accumulate over [a,b): sum modulo 2^16
TAcc == Ev("acc") /\ Observe(e.s) /\ Seen
        /\ e.ret = <<RSum16(RSlice(R[e.s], e.a, e.b), 1)>>
\* all_of(x < b): true iff every element is
TAllOf == Ev("allof") /\ Observe(e.s) /\ Seen
          /\ e.ret = <<IF \A i \in 1..Len(R[e.s]) : R[e.s][i][1] + R[e.s][i][2] - 1 < e.b
                       THEN 1 ELSE 0>>
\* chunk traversal of [a, size) that stops at the end of the chunk in which c
\* elements have been seen: a prefix is visited; the result says whether it ended
TChunkP == Ev("chunkp") /\ Observe(e.s) /\ Seen
           /\ LET full == RSlice(R[e.s], e.a, e.b)
                  n == RLen(e.runs) IN
              /\ e.runs = RTake(full, n) /\ n <= RLen(full)
              /\ IF e.ret[1] = 1 THEN n = RLen(full) /\ (n < e.c \/ e.c = 0)
                 ELSE n >= e.c /\ e.c > 0
                 
\* C10: an operation that threw has changed nothing, except that insertion, erasure and
\* concatenation, which take several steps, may have used up their expiring operands
TThrown == Line /\ Thrown /\ e.fault > 0 /\ UNCHANGED K
    /\ LET used == IF e.op \in {"concat", "append", "prepend", "insert", "insertv", "erase", "erase2"}
                   THEN Cons(e.s, e.e, e.m) ELSE {} IN
       R' = [r \in Regs |-> IF r \in used THEN Moved ELSE R[r]] /\ tgt' = used
    /\ Seen

Next == Reset \/ TThrown \/ TNew \/ TFill \/ TRange \/ TCopy \/ TTransient \/ TPersistent \/ TToFlex
     \/ TSwap \/ TSelfMove \/ TPushBack \/ TPushFront \/ TSet \/ TUpdate \/ TTake \/ TDrop
     \/ TConcat \/ TInsert \/ TInsertSeq \/ TErase \/ TEraseRange \/ TAppend \/ TPrepend
     \/ TAt \/ TLook \/ TTrav \/ TIter \/ TAcc \/ TAllOf \/ TChunkP
Spec == Init /\ [][Next]_tvars

OnlyTargets == [][\A r \in Regs \cap DOMAIN R' : R'[r] # R[r] => r \in tgt']_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
