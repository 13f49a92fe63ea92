------------------------------- MODULE MCTimer -------------------------------
(***************************************************************************)
(* Several timers on one clock, used by start and stop or as nested        *)
(* contexts that end normally or by an exception.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Timers, Works, MaxSteps, Depth

VARIABLES now, began, wall, nest, log
vars == <<now, began, wall, nest, log>>
None == 9999
Ev(op, t, d, x) == [op |-> op, t |-> t, d |-> d, exc |-> x]
Init == now = 0 /\ began = [t \in Timers |-> None] /\ wall = [t \in Timers |-> None] /\ nest = <<>> /\ log = <<>>
InContext(t) == \E i \in 1..Len(nest) : nest[i] = t
Work(d) == now' = now + d /\ log' = Append(log, Ev("work", 0, d, FALSE)) /\ UNCHANGED <<began, wall, nest>>
Start(t) == began' = [began EXCEPT ![t] = now] /\ log' = Append(log, Ev("start", t, 0, FALSE)) /\ UNCHANGED <<now, wall, nest>>
Stop(t) == /\ log' = Append(log, Ev("stop", t, 0, FALSE))
           /\ wall' = IF began[t] = None THEN wall ELSE [wall EXCEPT ![t] = now - began[t]]
           /\ UNCHANGED <<now, began, nest>>
Enter(t) == /\ Len(nest) < Depth /\ ~InContext(t)
            /\ began' = [began EXCEPT ![t] = now] /\ nest' = Append(nest, t) /\ log' = Append(log, Ev("enter", t, 0, FALSE))
            /\ UNCHANGED <<now, wall>>
Exit(x) == /\ nest # <<>>
           /\ LET t == nest[Len(nest)] IN
              /\ wall' = [wall EXCEPT ![t] = now - began[t]] /\ log' = Append(log, Ev("exit", t, 0, x))
           /\ nest' = SubSeq(nest, 1, Len(nest) - 1) /\ UNCHANGED <<now, began>>
Next == /\ Len(log) < MaxSteps
        /\ \/ \E d \in Works : Work(d)
           \/ \E t \in Timers : Start(t) \/ Stop(t) \/ Enter(t)
           \/ \E x \in BOOLEAN : Exit(x)
Spec == Init /\ [][Next]_vars

Elapsed(i, j) == LET w(k) == IF log[k].op = "work" THEN log[k].d ELSE 0
                     S[k \in (i - 1)..j] == IF k < i THEN 0 ELSE S[k - 1] + w(k) IN S[j]
LastIdx(P(_)) == LET I == {i \in 1..Len(log) : P(log[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
(* what a timer shows is the work between its last effective stop and the last start before it *)
Measures ==
  \A t \in Timers :
    LET ends == {i \in 1..Len(log) : log[i].t = t /\ log[i].op \in {"stop", "exit"} /\
                    \E j \in 1..(i - 1) : log[j].t = t /\ log[j].op \in {"start", "enter"}} IN
    IF ends = {} THEN wall[t] = None
    ELSE LET i == CHOOSE i \in ends : \A j \in ends : j <= i
             st == {j \in 1..(i - 1) : log[j].t = t /\ log[j].op \in {"start", "enter"}}
             j == CHOOSE j \in st : \A k \in st : k <= j
         IN wall[t] = Elapsed(j, i)
Bounded == \A t \in Timers : wall[t] = None \/ wall[t] <= now
(* a context inside another one never takes longer (unless restarted inside) *)
Nested == \A i, j \in 1..Len(nest) : i < j /\ began[nest[i]] # None =>
            began[nest[i]] <= began[nest[j]] \/ \E k \in 1..Len(log) : log[k].op = "start" /\ log[k].t = nest[i]
GenNext ==
  /\ Len(log) < MaxSteps
  /\ \E u \in {RandomElement(1..7)}, t \in {RandomElement(Timers)}, d \in {RandomElement(Works)}, x \in {RandomElement(BOOLEAN)} :
     IF u <= 2 THEN Work(d) ELSE IF u = 3 THEN Start(t) ELSE IF u = 4 THEN Stop(t)
     ELSE IF u = 5 /\ ENABLED Enter(t) THEN Enter(t) ELSE IF nest # <<>> THEN Exit(x) ELSE Start(t)
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
