------------------------------- MODULE LifeMC -------------------------------
(* Folding a sequence of events gives what taking them one by one gives, and *)
(* refuses a sequence exactly if it has an event that Life does not allow;   *)
(* what is refused: two lives of one object, reading or assigning what is not*)
(* alive, giving back what is not held or with another size.                 *)
EXTENDS Life
CONSTANTS Ids, Sizes, Len_
VARIABLE hist
Events ==
    ({Ctor, Dtor, Read} \X Ids \X {0}) \cup ({Copy_, Move, Assign, MAssign} \X Ids \X Ids)
    \cup ({Alloc, Free} \X Ids \X Sizes)
MInit == objs = {} /\ blks = {} /\ base = Unknown /\ hist = <<>>
MNext == \E ev \in Events : Len(hist) < Len_ /\ LifeStep(ev) /\ hist' = Append(hist, ev)
MSpec == MInit /\ [][MNext]_<<lvars, hist>>

FoldAgrees == LET r == Fold({}, {}, hist) IN r.ok /\ r.o = objs /\ r.b = blks
\* independently of Legal: counts of events by object and block
N(ks, a) == Cardinality({i \in 1..Len(hist) : hist[i][1] \in ks /\ hist[i][2] = a})
OneLife == \A a \in Ids : N({Dtor}, a) <= N({Ctor, Copy_, Move}, a) /\ (a \in objs <=> N({Ctor, Copy_, Move}, a) > N({Dtor}, a))
Returned == \A a \in Ids : N({Free}, a) <= N({Alloc}, a) /\ Cardinality({x \in blks : x[1] = a}) = N({Alloc}, a) - N({Free}, a)
RefusedIffIllegal == \A ev \in Events : Fold({}, {}, Append(hist, ev)).ok <=> Legal(objs, blks, ev)
Refused == \A a \in Ids :
    /\ a \in objs => ~Legal(objs, blks, <<Ctor, a, 0>>)
    /\ a \notin objs => \A k \in {Dtor, Read} : ~Legal(objs, blks, <<k, a, 0>>)
    /\ a \notin objs => \A k \in {Assign, MAssign}, c \in Ids : ~Legal(objs, blks, <<k, a, c>>) /\ ~Legal(objs, blks, <<k, c, a>>)
    /\ \A z \in Sizes : <<a, z>> \notin blks => ~Legal(objs, blks, <<Free, a, z>>)
=============================================================================
