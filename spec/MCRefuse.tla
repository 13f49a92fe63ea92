------------------------------- MODULE MCRefuse -------------------------------
(***************************************************************************)
(* Requests with several arguments on several objects: the arguments are   *)
(* checked one after the other, then the effects are made one after the    *)
(* other.  A request one of whose arguments is wrong is refused.           *)
(* ChecksFirst = FALSE mixes checks and effects: the invariants fail.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Objects, Args, MaxRequests, ChecksFirst, Valids, Invalids, MaxSteps

VARIABLES done,     \* effects made on each object
          agreed,   \* effects of the requests accepted so far
          req,      \* request in progress: <<object, wrong argument or 0, checks done, effects done>> or <<>>
          last,     \* outcome of the last request
          log
vars == <<done, agreed, req, last, log>>
Init == done = [o \in Objects |-> 0] /\ agreed = [o \in Objects |-> 0] /\ req = <<>> /\ last = "" /\ log = <<>>
Ask(o, w) == /\ req = <<>> /\ Len(log) < MaxRequests /\ req' = <<o, w, 0, 0>> /\ last' = ""
             /\ log' = Append(log, [o |-> o, wrong |-> w, valid |-> 0, invalid |-> 0])
             /\ UNCHANGED <<done, agreed>>
Check == /\ req # <<>> /\ req[3] < Args
         /\ IF req[2] = req[3] + 1
            THEN req' = <<>> /\ last' = "refused" /\ UNCHANGED <<done, agreed, log>>
            ELSE req' = [req EXCEPT ![3] = @ + 1] /\ UNCHANGED <<done, agreed, last, log>>
Effect == /\ req # <<>> /\ req[4] < Args /\ (IF ChecksFirst THEN req[3] = Args ELSE req[4] < req[3])
          /\ done' = [done EXCEPT ![req[1]] = @ + 1]
          /\ req' = [req EXCEPT ![4] = @ + 1] /\ UNCHANGED <<agreed, last, log>>
Return == /\ req # <<>> /\ req[3] = Args /\ req[4] = Args
          /\ agreed' = [agreed EXCEPT ![req[1]] = @ + Args] /\ last' = "accepted" /\ req' = <<>> /\ UNCHANGED <<done, log>>
Next == (\E o \in Objects, w \in 0..Args : Ask(o, w)) \/ Check \/ Effect \/ Return
Spec == Init /\ [][Next]_vars
NothingChanged == req = <<>> => done = agreed
Outcome == (req = <<>> /\ last # "") => last = (IF log[Len(log)].wrong = 0 THEN "accepted" ELSE "refused")
(* sessions to be replayed: valid and invalid requests, by number *)
GenNext == /\ Len(log) < MaxSteps /\ UNCHANGED <<done, agreed, req, last>>
           /\ \E o \in {RandomElement(Objects)}, u \in {RandomElement(1..5)}, v \in {RandomElement(Valids)}, i \in {RandomElement(Invalids)} :
              log' = Append(log, IF u <= 2 THEN [o |-> o, wrong |-> 0, valid |-> v, invalid |-> 0] ELSE [o |-> o, wrong |-> 1, valid |-> 0, invalid |-> i])
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
