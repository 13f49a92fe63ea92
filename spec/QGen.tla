-------------------------------- MODULE QGen ---------------------------------
(***************************************************************************)
(* Construction of QDelta generators: which value each needed parameter    *)
(* takes from the arguments of the call.  Values are tokens: "x" an         *)
(* explicit value, "g" the one of the Q-generator, "0" the default.        *)
(***************************************************************************)
EXTENDS Session

(* U25..: classes of a user, which inherit the constructor of the library, of *)
(* a registered class, forward their arguments to it, or take the weights     *)
NeedsNodesAndLeft == {"BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "U25Plain", "U25Sub", "U25Forward", "U25All"}
NeedsWeights == {"U25Own"}
NeedsNodes == {"MIN_SR_NS", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "Jumper", "FlexJumper"}
NeedsSetting == {"MIN_SR_S", "MIN_SR_FLEX", "MIN3", "MIN_VDHS"}
NeedsMatrix == {"MIN", "PIC", "Exact", "LU", "LU2", "LDU", "QPar", "GS"}
(* the needed parameters in positional order *)
Needed(name) == IF name \in NeedsNodesAndLeft THEN <<"nodes", "tLeft">>
                ELSE IF name \in NeedsNodes THEN <<"nodes">> ELSE IF name \in NeedsWeights THEN <<"nodes", "weights">>
                ELSE IF name \in NeedsSetting THEN <<"nNodes", "nodeType", "quadType">> ELSE <<"Q">>
GenKinds == {"coll", "collsub", "rk", "user"}
Suitable(name, kind) == kind \in GenKinds /\ (name \in NeedsSetting => kind \in {"coll", "collsub"})
OfGen(kind, p) == IF p = "tLeft" /\ kind \in {"rk", "user"} THEN "0" ELSE "g"
Effective(a) ==
  LET ps == Needed(a.name)
      given(i) == IF i <= a.pos THEN "x" ELSE IF ps[i] \in Range(a.kw) THEN "x"
                  ELSE IF a.qGen # "none" THEN OfGen(a.qGen, ps[i]) ELSE IF ps[i] = "tLeft" THEN "0" ELSE "missing"
  IN [i \in 1..Len(ps) |-> given(i)]
MustRefuse(a) == a.style = "both" \/ (a.qGen # "none" /\ ~Suitable(a.name, a.qGen)) \/ "missing" \in Range(Effective(a))
RefWith(before, name, eff) ==
  before[CHOOSE i \in 1..Len(before) : before[i].op = "qg.ref" /\ before[i].a.name = name /\ before[i].a.eff = eff]
QgMake(before, e) ==
  LET a == e.a IN
  IF MustRefuse(a) THEN Must("C25.accepted", e.r.exc # "")
  ELSE LET ref == RefWith(before, a.name, Effective(a)) IN
       IF ref.r.exc # "" THEN Must("C25.accepted-parameters", e.r.exc # "")
       ELSE IF e.r.exc # "" THEN {"C25.raises"}
       ELSE Must("C25.coefficients", SesSame(e.r.v, ref.r.v))
            \cup Must("C25.deprecation", a.style = "coll" => e.r.deprecated)
=============================================================================
