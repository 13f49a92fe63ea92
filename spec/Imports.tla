------------------------------- MODULE Imports -------------------------------
(***************************************************************************)
(* Imports of the modules of the library in a new process: after the first *)
(* one, whatever the module, all documented generators are registered; the *)
(* names and classes are those of another process that imported everything *)
(* in the documented order, and the settings of the caller are kept.       *)
(***************************************************************************)
EXTENDS Settings, Registry
AllNames(k) == UNION {{DocOf(k)[i][j] : j \in DOMAIN DocOf(k)[i]} : i \in DOMAIN DocOf(k)}
ImpRef(before, m) == LET r == SelectSeq(before, LAMBDA x : x.op = "imp.ref" /\ x.a.m = m) IN r[1].r
ImpAsk(before, e) ==
  IF e.r.exc # "" THEN {"C45.raises"}
  ELSE LET ref == ImpRef(before, e.a.m) IN
       UNION {Must("C45." \o EnvNames(before)[k], e.r.now[k] = EnvPast(SelectSeq(before, LAMBDA x : x.op # "imp.ref"))[k]) : k \in 1..Len(EnvNames(before))}
  \cup Must("C45.printed", e.r.printed = "")
  \cup UNION {Must("C45.registered-" \o k, {e.r.reg[k][i] : i \in DOMAIN e.r.reg[k]} = AllNames(k) /\ Len(e.r.reg[k]) = Cardinality(AllNames(k))) : k \in {"Q", "RK", "QD"}}
  \cup Must("C45.names", e.r.names = ref.names)
  \cup Must("C45.documented-names", e.r.documented)
  \cup Must("C45.classes", e.r.classes = ref.classes)
=============================================================================
