------------------------------ MODULE MCSession -------------------------------
(***************************************************************************)
(* Generators with cached matrices, at the level of memory cells: a call   *)
(* returns a new cell with the value of the cached one (or, on demand, the *)
(* cached cell itself), the caller may write into the cells it was given   *)
(* except those.  Copies = FALSE is the design without copies, for which   *)
(* the invariants fail.  Simulation writes the behaviours to be replayed.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Gens, Ks, Kinds, MaxSteps, MaxInst, Copies, Shared

VARIABLES insts, cache, heap, results, log
vars == <<insts, cache, heap, results, log>>

Init == insts = <<>> /\ cache = <<>> /\ heap = <<>> /\ results = <<>> /\ log = <<>>
(* Shared: generators whose class holds the cell (a table of the class)      *)
Key(i, k) == IF insts[i] \in Shared THEN <<0, insts[i]>> ELSE <<i, k>>
New(g) == /\ Len(insts) < MaxInst
          /\ insts' = Append(insts, g) /\ log' = Append(log, [op |-> "new", g |-> g, i |-> 0, kind |-> 0, k |-> 0, j |-> 0])
          /\ UNCHANGED <<cache, heap, results>>
Cached(key) == \E n \in 1..Len(cache) : cache[n].key = key
CellOf(key) == cache[CHOOSE n \in 1..Len(cache) : cache[n].key = key].cell
(* kind 1 asks for the cached cell itself *)
Call(i, kind, k) ==
  LET key == Key(i, k)
      h1 == IF Cached(key) THEN heap ELSE Append(heap, "value")
      cell == IF Cached(key) THEN CellOf(key) ELSE Len(h1)
      copy == kind # 1 /\ Copies
      h2 == IF copy THEN Append(h1, h1[cell]) ELSE h1
  IN /\ heap' = h2
     /\ cache' = IF Cached(key) THEN cache ELSE Append(cache, [key |-> key, cell |-> cell])
     /\ results' = Append(results, [cell |-> IF copy THEN Len(h2) ELSE cell, free |-> kind # 1, was |-> h2[IF copy THEN Len(h2) ELSE cell]])
     /\ log' = Append(log, [op |-> "call", g |-> insts[i], i |-> i, kind |-> kind, k |-> k, j |-> 0])
     /\ UNCHANGED insts
Write(j) ==
  /\ results[j].free /\ heap[results[j].cell] = "value"
  /\ heap' = [heap EXCEPT ![results[j].cell] = "overwritten"]
  /\ log' = Append(log, [op |-> "write", g |-> 0, i |-> 0, kind |-> 0, k |-> 0, j |-> j])
  /\ UNCHANGED <<insts, cache, results>>
Next == /\ Len(log) < MaxSteps
        /\ \/ \E g \in Gens : New(g)
           \/ \E i \in 1..Len(insts), kind \in Kinds, k \in Ks : Call(i, kind, k)
           \/ \E j \in 1..Len(results) : Write(j)
Spec == Init /\ [][Next]_vars

(* every result had the value of a fresh instance *)
HistoryFree == \A j \in 1..Len(results) : results[j].was = "value"
CacheClean == \A n \in 1..Len(cache) : heap[cache[n].cell] = "value"
NotShared == \A j, m \in 1..Len(results) : j # m /\ results[j].cell = results[m].cell => ~results[j].free /\ ~results[m].free
(* Next with creations and writes as frequent as calls *)
GenNext == /\ Len(log) < MaxSteps
           /\ \E u \in {RandomElement(1..8)} :
              IF insts = <<>> \/ (u = 1 /\ Len(insts) < MaxInst) THEN \E g \in {RandomElement(Gens)} : New(g)
              ELSE IF u \in 2..4 /\ \E j \in 1..Len(results) : ENABLED Write(j)
              THEN \E j \in {RandomElement({j \in 1..Len(results) : results[j].free /\ heap[results[j].cell] = "value"})} : Write(j)
              ELSE \E i \in {RandomElement(1..Len(insts))}, kind \in {RandomElement(Kinds)}, k \in {RandomElement(Ks)} : Call(i, kind, k)
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
