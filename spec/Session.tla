------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions on generators: results are a function of the parameters of the *)
(* generator and of the call, whatever happened before; returned arrays    *)
(* belong to the caller; arguments stay as they were given.                *)
(*                                                                         *)
(* ses.ref   result of a call on an instance used for nothing else          *)
(* ses.new   creation of an instance of generator a.gen                    *)
(* ses.call  call a.call on that instance (or the generic function)         *)
(* ses.write the caller writes into an array returned earlier               *)
(***************************************************************************)
EXTENDS Rec

RefOf(before, gen, call) ==
  before[CHOOSE i \in 1..Len(before) : before[i].op = "ses.ref" /\ before[i].a.gen = gen /\ before[i].a.call = call]
(* equal up to what another memory alignment may change in the sums *)
SesClose(x, y) == LET tol == RMul(Eps(1048576), RMaxAbs(y)) IN Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k] = y[k] \/ Within(x[k], y[k], tol)
SesSame(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : u[k].sh = v[k].sh /\ SesClose(RVec(u[k].d), RVec(v[k].d)) /\ SesClose(RVec(u[k].i), RVec(v[k].i))
SesNew(e) == Must("C24.creation-raises", e.r.exc = "")
SesCall(before, e) ==
  LET ref == RefOf(before, e.a.gen, e.a.call) IN
  IF e.r.exc # ref.r.exc THEN {"C24.outcome-" \o e.a.kind}
  ELSE Must("C24.value-" \o e.a.kind, SesSame(e.r.v, ref.r.v))
       \cup Must("C24.shared-" \o e.a.kind, e.a.kind = "nocopy" \/ ~e.r.shared)

(* a request that is not valid is refused; the answers to the valid ones stay  *)
(* those of objects that were never asked for anything else                    *)
RefuseCall(e) == Must("C40.accepted", e.r.exc \notin {"", "Hang"}) \cup Must("C40.registries-changed", e.r.same)
ValidCall(before, e) ==
  LET ref == RefOf(before, e.a.gen, e.a.call) IN
  IF ref.r.exc # "" \/ e.r.exc # "" THEN Must("C40.outcome-after-refusals", e.r.exc = ref.r.exc)
  ELSE Must("C40.value-after-refusals", SesSame(e.r.v, ref.r.v))

(* a request made while other threads make theirs                               *)
ThreadCall(before, e) ==
  LET ref == RefOf(before, e.a.gen, e.a.call) IN
  IF ref.r.exc # "" \/ e.r.exc # "" THEN Must("C41.outcome", e.r.exc = ref.r.exc)
  ELSE Must("C41.value", SesSame(e.r.v, ref.r.v))

(* copies of objects (copy, deepcopy, pickle, pickle read by another process)   *)
CopyMade(e) == Must("C42.copy", e.r.exc = "" /\ e.r.same)
CopyCall(before, e) ==
  LET ref == RefOf(before, e.a.gen, e.a.call) IN
  IF ref.r.exc # "" \/ e.r.exc # "" THEN Must("C42.outcome-" \o e.a.kind, e.r.exc = ref.r.exc)
  ELSE Must("C42.value-" \o e.a.kind, SesSame(e.r.v, ref.r.v))

(* the answer is the one for the present content of the arguments, in an array  *)
(* the caller shares with nobody                                                *)
OwnCall(before, e) ==
  LET ref == RefOf(before, e.a.gen, e.a.call) IN
  IF ref.r.exc # "" \/ e.r.exc # "" THEN Must("C43.outcome", e.r.exc = ref.r.exc)
  ELSE Must("C43.value", SesSame(e.r.v, ref.r.v)) \cup Must("C43.shared", ~e.r.shared)

(* arguments recorded before and after the call (arrays and texts) *)
ArgsKept(e) ==
  UNION {Must("C33." \o e.a.call \o "-" \o e.a.args[k].name,
              SameArr(e.a.args[k].v, e.r.args[k].v) /\ e.a.args[k].text = e.r.args[k].text) : k \in 1..Len(e.a.args)}
  \cup Must("C33.arguments", Len(e.a.args) = Len(e.r.args))
=============================================================================
