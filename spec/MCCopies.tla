------------------------------ MODULE MCCopies ------------------------------
(***************************************************************************)
(* Copies of generators (copy, deepcopy, pickle): an object holds a         *)
(* reference to a cell of the heap with what it has computed so far.  A deep*)
(* copy gets cells of its own.  An object whose own arrays are overwritten  *)
(* is not asked any more; all others go on answering right.                 *)
(* Deep = FALSE: the copies share the cells, and the invariant fails.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS MaxObjects, MaxSteps, Deep, GenCalls, GenObjects
VARIABLES heap,   \* cell -> value: 1 right, 0 spoiled
          objs,   \* object -> [cell: its cell or 0, dead: overwritten]
          last,   \* last answer
          log
vars == <<heap, objs, last, log>>
Init == heap = <<>> /\ objs = <<[cell |-> 0, dead |-> FALSE, own |-> FALSE]>> /\ last = 1 /\ log = <<>>
Step(e) == Len(log) < MaxSteps /\ log' = Append(log, e)
Alive == {o \in DOMAIN objs : ~objs[o].dead}
Ask(o) == /\ Step(<<"call", o>>)
          /\ IF objs[o].cell = 0
             THEN heap' = Append(heap, 1) /\ objs' = [objs EXCEPT ![o].cell = Len(heap) + 1] /\ last' = 1
             ELSE last' = heap[objs[o].cell] /\ UNCHANGED <<heap, objs>>
Copy(o, deep) == /\ Len(objs) < MaxObjects /\ Step(<<"copy", o>>) /\ UNCHANGED last
                 /\ IF deep /\ Deep /\ objs[o].cell # 0
                    THEN heap' = Append(heap, heap[objs[o].cell]) /\ objs' = Append(objs, [cell |-> Len(heap) + 1, dead |-> FALSE, own |-> TRUE])
                    ELSE UNCHANGED heap /\ objs' = Append(objs, [objs[o] EXCEPT !.own = deep])
(* only objects that share nothing on purpose are overwritten; a shallow copy of them afterwards shares *)
Shared(o) == \E p \in Alive \ {o} : objs[p].cell # 0 /\ objs[p].cell = objs[o].cell /\ ~(objs[p].own /\ objs[o].own)
Spoil(o) == /\ objs[o].own /\ ~(Deep /\ Shared(o)) /\ Step(<<"spoil", o>>) /\ UNCHANGED last
            /\ heap' = (IF objs[o].cell = 0 THEN heap ELSE [heap EXCEPT ![objs[o].cell] = 0])
            /\ objs' = [objs EXCEPT ![o].dead = TRUE]
Next == \E o \in Alive : Ask(o) \/ (\E d \in BOOLEAN : Copy(o, d)) \/ Spoil(o)
Spec == Init /\ [][Next]_vars
Right == last = 1
Kept == \A o \in Alive : objs[o].cell # 0 => heap[objs[o].cell] = 1
(* ---------------- sessions to be replayed ---------------- *)
GenNext == /\ Len(log) < MaxSteps /\ UNCHANGED <<heap, last>>
           /\ \E u \in {RandomElement(1..8)}, v \in {RandomElement(GenCalls)}, o \in {RandomElement(Alive)} :
              \/ u <= 4 /\ UNCHANGED objs /\ log' = Append(log, [op |-> "call", o |-> o, v |-> v, to |-> 0])
              \/ u = 5 /\ log' = Append(log, [op |-> "shallow", o |-> o, v |-> 0, to |-> Len(objs) + 1])
                       /\ objs' = Append(objs, [objs[o] EXCEPT !.own = FALSE, !.cell = 1])
              \/ u = 6 /\ log' = Append(log, [op |-> "deep", o |-> o, v |-> 0, to |-> Len(objs) + 1])
                       /\ objs' = Append(objs, [cell |-> 0, dead |-> FALSE, own |-> TRUE])
              \/ u = 7 /\ log' = Append(log, [op |-> "pickle", o |-> o, v |-> 0, to |-> Len(objs) + 1])
                       /\ objs' = Append(objs, [cell |-> 0, dead |-> FALSE, own |-> TRUE])
              \* never an object a shallow copy was made of
              \/ u = 8 /\ IF objs[o].own /\ \A i \in 1..Len(log) : ~(log[i].op = "shallow" /\ log[i].o = o)
                          THEN log' = Append(log, [op |-> "spoil", o |-> o, v |-> 0, to |-> 0]) /\ objs' = [objs EXCEPT ![o].dead = TRUE]
                          ELSE UNCHANGED objs /\ log' = Append(log, [op |-> "call", o |-> o, v |-> v, to |-> 0])
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
