------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* Several threads ask one generator for its matrices at the same time: the *)
(* steps of a request (look into the cache, compute, store, return) may be  *)
(* interleaved in any way.                                                  *)
(* Scratch: the computation keeps its index in the object (not the design   *)
(* of the library): the invariants fail.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Threads, Ks, MaxRequests, Dependent, Scratch,
          GenThreads, GenObjects, GenCalls, GenSlices, Lines
VARIABLES cache,    \* "none", or index -> value (value = the index it was computed for)
          pc, k, miss, val, got,       \* of each thread
          scratch, log
vars == <<cache, pc, k, miss, val, got, scratch, log>>
NoCache == [i \in {} |-> 0]
Init == /\ cache = <<"none", NoCache>> /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 0]
        /\ miss = [t \in Threads |-> ""] /\ val = [t \in Threads |-> 0] /\ got = [t \in Threads |-> <<>>] /\ scratch = 0 /\ log = <<>>
Index(i) == IF Dependent THEN i ELSE 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Ask(t, i) == /\ pc[t] = "idle" /\ Len(got[t]) < MaxRequests /\ Go(t, "look") /\ k' = [k EXCEPT ![t] = Index(i)]
             /\ UNCHANGED <<cache, miss, val, got, scratch, log>>
Look(t) == /\ pc[t] = "look"
           /\ IF cache[1] = "none" THEN Go(t, "prepare") /\ miss' = [miss EXCEPT ![t] = "all"] /\ UNCHANGED val
              ELSE IF k[t] \notin DOMAIN cache[2] THEN Go(t, "prepare") /\ miss' = [miss EXCEPT ![t] = "entry"] /\ UNCHANGED val
              ELSE Go(t, "return") /\ val' = [val EXCEPT ![t] = cache[2][k[t]]] /\ UNCHANGED miss
           /\ UNCHANGED <<cache, k, got, scratch, log>>
Prepare(t) == /\ pc[t] = "prepare" /\ Go(t, "compute") /\ scratch' = (IF Scratch THEN k[t] ELSE scratch)
              /\ UNCHANGED <<cache, k, miss, val, got, log>>
Compute(t) == /\ pc[t] = "compute" /\ Go(t, "store") /\ val' = [val EXCEPT ![t] = IF Scratch THEN scratch ELSE k[t]]
              /\ UNCHANGED <<cache, k, miss, got, scratch, log>>
Store(t) == /\ pc[t] = "store" /\ Go(t, "return")
            /\ cache' = IF miss[t] = "all" THEN <<"some", (k[t] :> val[t])>> ELSE <<"some", (k[t] :> val[t]) @@ cache[2]>>
            /\ UNCHANGED <<k, miss, val, got, scratch, log>>
Return(t) == /\ pc[t] = "return" /\ Go(t, "idle") /\ got' = [got EXCEPT ![t] = Append(@, <<k[t], val[t]>>)]
             /\ UNCHANGED <<cache, k, miss, val, scratch, log>>
Next == \E t \in Threads : (\E i \in Ks : Ask(t, i)) \/ Look(t) \/ Prepare(t) \/ Compute(t) \/ Store(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Look(t) \/ Prepare(t) \/ Compute(t) \/ Store(t) \/ Return(t))
Right == \A t \in Threads : \A i \in 1..Len(got[t]) : got[t][i][2] = got[t][i][1]
CacheRight == \A i \in DOMAIN cache[2] : cache[2][i] = i
(* an entry is missing only when the cache was first made by another thread in the meantime *)
Answered == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
(* ---------------- runs to be scheduled line by line on the library ---------------- *)
GenNext == /\ Len(log) < GenSlices /\ UNCHANGED <<cache, pc, k, miss, val, got, scratch>>
           /\ \E t \in {RandomElement(GenThreads)}, n \in {RandomElement(Lines)} : log' = Append(log, <<t, n>>)
GenSpec == Init /\ [][GenNext]_vars
Program == [i \in 1..RandomElement(1..3) |-> [o |-> RandomElement(GenObjects), v |-> RandomElement(GenCalls)]]
Done == Len(log) # GenSlices \/ CSVWrite("%1$s", <<ToJson([slices |-> log, programs |-> [t \in GenThreads |-> Program]])>>, IOEnv.BEHAVIOURS)
=============================================================================
