------------------------------ MODULE Registry -------------------------------
(***************************************************************************)
(* The three registries of generator classes: Q, Runge-Kutta (a part of Q) *)
(* and QDelta.  A registry is a function from names to classes.            *)
(***************************************************************************)
EXTENDS Rec

(* documented classes: the name, then its aliases *)
DocRK == <<
  <<"FE", "EE">>,
  <<"RK21", "ERK21">>,
  <<"RK2", "ERK2", "ExplicitMidPoint", "EMP">>,
  <<"HEUN2", "HEUN", "HeunEuler">>,
  <<"RK32", "ERK32", "RK32-SSP">>,
  <<"RK33", "ERK33", "RK33-SSP">>,
  <<"RK53", "ERK53">>,
  <<"RK4", "ERK4">>,
  <<"RK4_38", "ERK4_38">>,
  <<"RK65", "ERK65">>,
  <<"CashKarp", "Cash_Karp">>,
  <<"BE", "IE", "SDIRK1">>,
  <<"MidPoint", "IMP", "ImplicitMidPoint">>,
  <<"TRAP", "TRAPZ", "CN", "CrankNicolson">>,
  <<"SDIRK2">>,
  <<"SDIRK2_2", "SDIRK2-2">>,
  <<"SDIRK3">>,
  <<"DIRK43">>,
  <<"GAUSS_LG", "GAUSS-LG">>,
  <<"SDIRK54">>,
  <<"EDIRK43">>,
  <<"EDIRK4">>,
  <<"ESDIRK43">>,
  <<"ESDIRK53">>,
  <<"ARK548L2SAERK">>,
  <<"ARK548L2SAESDIRK">>,
  <<"ARK548L2SAESDIRK2">>,
  <<"ARK548L2SAERK2">>,
  <<"ARK324L2SAERK">>,
  <<"ARK324L2SAESDIRK">>,
  <<"ARK222EDIRK">>,
  <<"ARK222ERK">>,
  <<"ARK443ESDIRK">>,
  <<"ARK443ERK">>,
  <<"ARK343ESDIRK">>,
  <<"ARK343ERK">>,
  <<"ARK4EDIRK">>,
  <<"ARK4ERK">> >>
DocQ == Append(DocRK, <<"Collocation", "coll">>)
DocQD == <<
  <<"PIC", "Picard">>,
  <<"Exact", "EXACT">>,
  <<"LU">>,
  <<"LU2">>,
  <<"QPar", "Qpar", "Qdiag">>,
  <<"GS", "GaussSeidel">>,
  <<"LDU">>,
  <<"MIN", "MIN-Speck">>,
  <<"MIN3", "Magic_Numbers">>,
  <<"MIN_VDHS", "VDHS">>,
  <<"MIN_SR_NS", "MIN-SR-NS", "MIN_GT">>,
  <<"MIN_SR_S", "MIN-SR-S">>,
  <<"MIN_SR_FLEX", "MIN-SR-FLEX">>,
  <<"Jumper", "JUMPER", "FB">>,
  <<"FlexJumper", "FLEX-JUMPER", "FB2">>,
  <<"DNODES", "DNODES-1">>,
  <<"DNODES2", "DNODES-2">>,
  <<"DNODES3", "DNODES-3">>,
  <<"DNODES4", "DNODES-4">>,
  <<"DNODES5", "DNODES-5">>,
  <<"BE", "IE">>,
  <<"FE", "EE">>,
  <<"TRAP", "CN">>,
  <<"BEPAR", "IEpar">>,
  <<"TRAPAR">>,
  <<"SOE", "LeapFrog", "LF">> >>
DocOf(k) == CASE k = "Q" -> DocQ [] k = "RK" -> DocRK [] k = "QD" -> DocQD
Registries == {"Q", "RK", "QD"}
DocNames(k) == UNION {ToSet(DocOf(k)[i]) : i \in 1..Len(DocOf(k))}
DocClass(k, n) == DocOf(k)[CHOOSE i \in 1..Len(DocOf(k)) : n \in ToSet(DocOf(k)[i])][1]

(* ------------------------------ transitions ------------------------------- *)
(* description of a class: kind ("Q", "RK" or "QD"), name, aliases, isList    *)
(* (the aliases are given as a list), fault (the other rule it violates, ""  *)
(* when none), id (identity of the class)                                   *)
Faults(kind) ==
  CASE kind = "Q"  -> {"no-nodes", "no-Q", "no-weights", "no-order", "nodes-not-property", "order-not-property", "Q-not-property",
                       "weights-not-property", "no-default-params", "unusable-default-params", "constructor-fails", "constructor-fails-with-params"}
    [] kind = "RK" -> {"A-too-small", "A-too-large", "A-not-square", "b-too-small", "c-too-large", "no-order", "no-A", "no-b", "no-c",
                       "ragged-A", "order-not-property", "order-none", "b2-too-small", "b-two-dimensional", "c-scalar"}
    [] kind = "QD" -> {"no-compute", "no-kwargs", "kwargs-not-variable", "compute-without-k", "k-keyword-only"}
Names(d) == <<d.name>> \o d.aliases
Into(kind) == IF kind = "RK" THEN {"Q", "RK"} ELSE {kind}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
(* reg[k]: function from the names in use to class identities *)
Accepts(reg, d) == /\ d.fault = ""
                   /\ d.isList
                   /\ NoDup(Names(d))
                   /\ \A k \in Into(d.kind) : ToSet(Names(d)) \cap DOMAIN reg[k] = {}
Put(f, names, id) == [n \in DOMAIN f \cup ToSet(names) |-> IF n \in ToSet(names) THEN id ELSE f[n]]
Register(reg, d) ==
  IF ~Accepts(reg, d) THEN reg
  ELSE [k \in DOMAIN reg |-> IF k \in Into(d.kind) THEN Put(reg[k], Names(d), d.id) ELSE reg[k]]
RegInit == [k \in Registries |-> [n \in DocNames(k) |-> DocClass(k, n)]]

(* ------------------------------- verdicts --------------------------------- *)
(* state of the registries as recorded: reg.X is a sequence of               *)
(* <<name, class identity>>                                                  *)
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
(* the recorded events before this one that are registrations *)
StateBefore(evs) == FoldLeft(LAMBDA reg, e : IF e.op = "reg.register" THEN Register(reg, e.a) ELSE reg, RegInit, evs)
(* classes in excess of the documented ones are ignored: base lists the      *)
(* entries present before any registration                                  *)
Recorded(r, k) == ToSet(r[k])
RegBase(e) ==
  UNION {Must("C34.documented-" \o k, Pairs(RegInit[k]) \subseteq Recorded(e.r, k)) : k \in Registries}
RegRegister(before, base, e) ==
  LET reg == StateBefore(before)
      after == Register(reg, e.a)
      ok == Accepts(reg, e.a)
      extra(k) == Recorded(base.r, k) \ Pairs(RegInit[k])
  IN Must("C34.refused-" \o e.r.exc, ok => e.r.exc = "")
     \cup Must("C34.accepted-" \o e.a.fault, ~ok => e.r.exc # "")
     \cup UNION {Must("C34.registry-" \o k \o (IF ok THEN "" ELSE "-after-refusal"),
                       Recorded(e.r, k) = Pairs(after[k]) \cup extra(k)) : k \in Registries}
(* a registered class behaves like the built-in ones through every name *)
RegUse(before, e) ==
  LET reg == StateBefore(before) k == e.a.kind n == e.a.name IN
  IF n \notin DOMAIN reg[k] THEN Refused("C34.unregistered-usable", e, {"ValueError"})
  ELSE IF e.r.exc # "" THEN {"C34.registered-unusable"}
  ELSE Must("C34.registered-behaviour", Len(e.r.u) = Len(e.r.v) /\ \A i \in 1..Len(e.r.u) : SameArr(e.r.u[i], e.r.v[i]))
       \cup Must("C34.registered-listed", e.r.listed)

(* the registries of the package *)
RegTable(e) ==
  LET r == e.r IN
  UNION {Must("C18.documented-" \o k \o "-" \o n, \E i \in 1..Len(r[k]) : r[k][i].name = n /\ r[k][i].cls = DocClass(k, n))
           : <<k, n>> \in UNION {{<<k, n>> : n \in DocNames(k)} : k \in Registries}}
  \cup UNION {Must("C18.declared-by-its-class", \A i \in 1..Len(r[k]) : r[k][i].name \in ToSet(r[k][i].decl)) : k \in Registries}
  \cup UNION {Must("C18.names-of-" \o k, \A i \in 1..Len(r[k]) : \A n \in ToSet(r[k][i].decl) :
                     \E j \in 1..Len(r[k]) : r[k][j].name = n /\ r[k][j].id = r[k][i].id) : k \in Registries}
  \cup Must("C18.Runge-Kutta-in-Q", \A i \in 1..Len(r.RK) : \E j \in 1..Len(r.Q) : r.Q[j].name = r.RK[i].name /\ r.Q[j].id = r.RK[i].id)
  \cup Must("C18.Runge-Kutta-complete", \A j \in 1..Len(r.Q) : r.Q[j].rk => \E i \in 1..Len(r.RK) : r.Q[j].name = r.RK[i].name)
(* every alias gives what the class itself gives *)
RegGen(e) == Must("C18.raises", e.r.exc = "")
  \cup Must("C18.alias-result", e.r.exc # "" \/ (Len(e.r.u) = Len(e.r.v) /\ \A i \in 1..Len(e.r.u) : SameArr(e.r.u[i], e.r.v[i])))
  \cup Must("C18.class-of-alias", e.r.cls = DocClass(e.a.kind, e.a.name))
(* listing: the first name of every class, in the order of the registry       *)
RegClasses(o, e) ==
  LET reg == o.r[e.a.kind]
      first(i) == \A j \in 1..(i - 1) : reg[j].id # reg[i].id
      in(i) == e.a.module = "" \/ reg[i].module = e.a.module
      want == SelectSeq([i \in 1..Len(reg) |-> i], LAMBDA i : first(i) /\ in(i))
  IN Must("C18.listing-raises", e.r.exc = "")
     \cup Must("C18.listing", e.r.exc # "" \/ (Len(e.r.out) = Len(want) /\ {<<x.name, x.id>> : x \in ToSet(e.r.out)} = {<<reg[i].name, reg[i].id>> : i \in ToSet(want)}))
     \cup Must("C18.listing-documented", e.a.module # "" \/
            \A i \in 1..Len(DocOf(e.a.kind)) : \E x \in ToSet(e.r.out) : x.name = DocOf(e.a.kind)[i][1])
RegUnknown(e) == Refused("C18.unknown-name", e, {"ValueError"}) \cup Must("C18.unknown-name-side-effect", e.r.before = e.r.after)
=============================================================================
