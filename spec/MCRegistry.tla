----------------------------- MODULE MCRegistry ------------------------------
(***************************************************************************)
(* Every sequence of registrations over a small universe of descriptions,  *)
(* valid or not (model checking), and random behaviours over the whole     *)
(* universe of faults, written out to be replayed on the real registries   *)
(* (simulation with BEHAVIOURS set).                                       *)
(***************************************************************************)
EXTENDS Registry, CSV, Json
CONSTANTS Pool, Kinds, MaxSteps, MaxAliases, Small

VARIABLES reg, log
vars == <<reg, log>>
Universe ==
  [kind : Kinds, name : Pool, aliases : UNION {[1..n -> Pool] : n \in 0..MaxAliases}, isList : (IF MaxSteps > 2 THEN {TRUE} ELSE BOOLEAN),
   fault : {""} \cup (IF Small THEN {"no-order"} ELSE UNION {Faults(k) : k \in Kinds})]
Class(d, i) == [kind |-> d.kind, name |-> d.name, aliases |-> d.aliases, isList |-> d.isList, fault |-> d.fault, id |-> "U" \o ToString(i)]
Init == reg = RegInit /\ log = <<>>
Step(d) == LET c == Class(d, Len(log) + 1)
           IN reg' = Register(reg, c) /\ log' = Append(log, c)
Next == /\ Len(log) < MaxSteps
        /\ \E d \in Universe : Step(d)
Spec == Init /\ [][Next]_vars

Ids == {log[i].id : i \in 1..Len(log)}
ClassOf(id) == log[CHOOSE i \in 1..Len(log) : log[i].id = id]
In(id) == \E k \in Registries : \E n \in DOMAIN reg[k] : reg[k][n] = id
(* a class is entirely registered or not at all *)
AllOrNothing == \A id \in Ids : In(id) =>
  /\ ClassOf(id).fault = "" /\ ClassOf(id).isList
  /\ \A k \in Registries : {n \in DOMAIN reg[k] : reg[k][n] = id} = (IF k \in Into(ClassOf(id).kind) THEN ToSet(Names(ClassOf(id))) ELSE {})
BuiltinKept == \A k \in Registries : \A n \in DocNames(k) : reg[k][n] = DocClass(k, n)
RKinQ == \A n \in DOMAIN reg.RK : n \in DOMAIN reg.Q /\ reg.Q[n] = reg.RK[n]
Fold == reg = FoldLeft(Register, RegInit, log)

(* ------------------------------ generation -------------------------------- *)
Rnd(S) == RandomElement(S)
GenStep ==
  /\ Len(log) < MaxSteps
  /\ \E kind \in {Rnd(Kinds)}, u \in {Rnd(1..6)}, v \in {Rnd(1..8)}, w \in {Rnd(1..3)}, n \in {Rnd(0..MaxAliases)} :
     LET some == IF u = 1 THEN DocNames(kind) \cup Pool ELSE Pool IN
     \E name \in {Rnd(IF v = 2 THEN DocNames(kind) ELSE Pool)}, fault \in {IF w = 1 THEN Rnd(Faults(kind)) ELSE ""},
        a1 \in {Rnd(some)}, a2 \in {Rnd(some)} :
       Step([kind |-> kind, name |-> name, aliases |-> SubSeq(<<a1, a2>>, 1, n), isList |-> (n = 0 \/ v # 1), fault |-> fault])
GenSpec == Init /\ [][GenStep]_vars
Write == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
