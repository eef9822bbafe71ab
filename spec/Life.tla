-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* What a reference-counted container library may do with its elements and *)
(* its memory (C09), event by event: objects come to life once, are read   *)
(* only while alive and die once; blocks are given back once, with the     *)
(* size they were requested with.                                          *)
(*                                                                         *)
(* An event is <<kind, a, b>>; ids are never reused.  Id 0 as the object   *)
(* of an event says that there was no live object at the address used.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES objs,   \* objects alive
          blks,   \* blocks handed out: <<id, size>>
          base    \* what the constant empty and default values consist of (Unknown until seen)
lvars == <<objs, blks, base>>

Unknown == <<{-1}, {<<-1, -1>>}>>
Ctor == 0  Copy_ == 1  Move == 2  Dtor == 3  Assign == 4  MAssign == 5  Read == 6  Alloc == 7  Free == 8

Legal(o, b, ev) ==
    CASE ev[1] = Ctor    -> ev[2] \notin o
      [] ev[1] \in {Copy_, Move} -> ev[2] \notin o /\ ev[3] \in o
      [] ev[1] \in {Dtor, Read} -> ev[2] \in o
      [] ev[1] \in {Assign, MAssign} -> ev[2] \in o /\ ev[3] \in o
      [] ev[1] = Alloc   -> \A x \in b : x[1] # ev[2]
      [] ev[1] = Free    -> <<ev[2], ev[3]>> \in b
      [] OTHER -> FALSE
NextObjs(o, ev) ==
    CASE ev[1] \in {Ctor, Copy_, Move} -> o \cup {ev[2]}
      [] ev[1] = Dtor -> o \ {ev[2]}
      [] OTHER -> o
NextBlks(b, ev) ==
    CASE ev[1] = Alloc -> b \cup {<<ev[2], ev[3]>>}
      [] ev[1] = Free -> b \ {<<ev[2], ev[3]>>}
      [] OTHER -> b

\* one event
LifeStep(ev) == /\ Legal(objs, blks, ev)
                /\ objs' = NextObjs(objs, ev) /\ blks' = NextBlks(blks, ev)
                /\ UNCHANGED base

\* a sequence of events as one step (equal to that many LifeSteps, see LifeMC)
Fold(o, b, evs) ==
    FoldLeft(LAMBDA st, ev : IF st.ok /\ Legal(st.o, st.b, ev)
                             THEN [ok |-> TRUE, o |-> NextObjs(st.o, ev), b |-> NextBlks(st.b, ev)]
                             ELSE [st EXCEPT !.ok = FALSE],
             [ok |-> TRUE, o |-> o, b |-> b], evs)
LifeSteps(evs) == LET r == Fold(objs, blks, evs) IN
    /\ r.ok /\ objs' = r.o /\ blks' = r.b /\ UNCHANGED base
\* every variable of the program has been destroyed and made anew, empty: nothing
\* remains but the constant empty and default values, made when first asked for
Quiet(evs) == LET r == Fold(objs, blks, evs) IN
    /\ r.ok /\ objs' = r.o /\ blks' = r.b
    /\ base \in {Unknown, <<r.o, r.b>>} /\ base' = <<r.o, r.b>>
=============================================================================
