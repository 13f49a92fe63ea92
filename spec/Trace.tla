-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded sessions: every recorded call is one step; its   *)
(* verdict is the set of the clauses of the specification it breaks (empty *)
(* when the call is allowed).  env maps the objects of the session to the  *)
(* event that created them.                                                *)
(***************************************************************************)
EXTENDS Lagrange, Nodes, Quad, Butcher, QDelta, Registry, QGen, Sdc, Jump, Num, Timer, Imports, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, env, bad
vars == <<tr, l, env, bad>>

(* the events of the session before the one being validated *)
Before == SubSeq(Traces[tr].ev, 1, l)
Obj(h) == Traces[tr].ev[env[h]]
Verdict(e) ==
  CASE e.op = "lag.new"    -> LagNew(e)
    [] e.op = "lag.largeW" -> LargeWeights(e)
    [] e.op = "lag.largeP" -> LargeInterp(e)
    [] e.op = "lag.largeD" -> LargeDeriv(e)
    [] e.op = "lag.largeQ" -> LargeInteg(e)
    [] e.op = "lag.interp" -> Interp(Obj(e.h), e)
    [] e.op = "lag.integ"  -> Integ(Obj(e.h), e)
    [] e.op = "lag.deriv"  -> Deriv(Obj(e.h), e)
    [] e.op = "lag.call"   -> Call(Obj(e.h), e)
    [] e.op = "nodes.new"  -> NodesNew(e)
    [] e.op = "nodes.get"  -> GetNodes(Obj(e.h), e)
    [] e.op = "nodes.coeffsat" -> GetCoeffsAt(Obj(e.h), e)
    [] e.op = "nodes.coeffs"  -> GetCoeffs(Obj(e.h), e)
    [] e.op = "nodes.tridiag" -> GetTridiag(Obj(e.h), e)
    [] e.op = "nodes.eval"    -> EvalPoly(Obj(e.h), e)
    [] e.op = "fejer.many"    -> FejerMany(e)
    [] e.op = "fejer"         -> Fejer(e)
    [] e.op = "sparse"        -> Sparse(e)
    [] e.op = "coll.many"     -> CollMany(e)
    [] e.op = "coll.new"      -> CollNew(e)
    [] e.op = "coll.order"    -> CollOrder(e)
    [] e.op = "q.forms"       -> Forms(e)
    [] e.op = "q.badform"     -> BadForm(e)
    [] e.op = "qd.forms"      -> DeltaForms(e)
    [] e.op = "q.right"       -> RightCoeffs(e)
    [] e.op = "rk.order"      -> RkOrder(e)
    [] e.op = "rk.table"      -> RkTable(e)
    [] e.op = "rk.pair"       -> RkPair(e)
    [] e.op = "rk.new"        -> RkNew(e)
    [] e.op = "rk.pad"        -> RkPad(Obj(e.h), e)
    [] e.op = "rk.padsolve"   -> RkPadSolve(e)
    [] e.op = "stability"     -> Stability(e)
    [] e.op = "qd.ts"         -> TimeStep(e)
    [] e.op = "qd.alg"        -> Algebraic(e)
    [] e.op = "diag.new"      -> DiagNew(e)
    [] e.op = "diag.get"      -> DiagGet(Obj(e.h), e)
    [] e.op = "qd.opt"        -> Optimized(e)
    [] e.op = "qd.multi"      -> Multi(e)
    [] e.op = "qd.multigen"   -> MultiGen(e)
    [] e.op = "reg.table"     -> RegTable(e)
    [] e.op = "reg.classes"   -> RegClasses(Obj(e.h), e)
    [] e.op = "reg.gen"       -> RegGen(e)
    [] e.op = "reg.unknown"   -> RegUnknown(e)
    [] e.op = "reg.base"      -> RegBase(e)
    [] e.op = "reg.register"  -> RegRegister(Before, Traces[tr].ev[1], e)
    [] e.op = "reg.use"       -> RegUse(Before, e)
    [] e.op = "ses.ref"       -> {}
    [] e.op = "th.call"       -> ThreadCall(Before, e)
    [] e.op = "cp.copy"       -> CopyMade(e)
    [] e.op = "own.call"      -> OwnCall(Before, e)
    [] e.op = "env.start"     -> {}
    [] e.op = "imp.ref"       -> {}
    [] e.op = "imp.ask"       -> ImpAsk(Before, e)
    [] e.op = "imp.alone"     -> Must("C45.alone", e.r.rc = 0 /\ e.r.out = "ALONE True True")
    [] e.op = "env.set"       -> {}
    [] e.op = "env.ask"       -> EnvAsk(Before, e)
    [] e.op = "cp.call"       -> CopyCall(Before, e)
    [] e.op = "ses.new"       -> SesNew(e)
    [] e.op = "ses.write"     -> {}
    [] e.op = "ses.call"      -> SesCall(Before, e)
    [] e.op = "ses.args"      -> ArgsKept(e)
    [] e.op = "qg.ref"        -> {}
    [] e.op = "qg.make"       -> QgMake(Before, e)
    [] e.op = "dq.solve"      -> RkSolve(e)
    [] e.op = "dq.error"      -> MaxError(e)
    [] e.op = "sdc.solve"     -> SdcSolve(e, "C27")
    [] e.op = "sdc.monitors"  -> SdcMonitors(e)
    [] e.op = "sdc.run"       -> SdcSolve(e, "C28")
    [] e.op = "sdc.order"     -> SdcOrder(e)
    [] e.op = "sdc.predict"   -> SdcPredict(e)
    [] e.op = "sdc.fixed"     -> SdcFixed(e)
    [] e.op = "sdc.mixed"     -> SdcMixed(e)
    [] e.op = "sdc.jump"      -> SdcJump(e)
    [] e.op = "sdc.divided"   -> Divided(e)
    [] e.op = "sdc.stiff"     -> StiffLimit(e)
    [] e.op = "sdc.jumprun"   -> SdcSolve(e, "C36")
    [] e.op = "qd.index"      -> SweepIndex(e)
    [] e.op = "q.default"     -> DefaultInstance(e)
    [] e.op = "rf.invalid"    -> RefuseCall(e)
    [] e.op = "rf.valid"      -> ValidCall(Before, e)
    [] e.op = "tm.new"        -> Must("C38.new-raises", e.r.exc = "")
    [] e.op = "tm.start"      -> TimerStart(Before, e)
    [] e.op = "tm.stop"       -> TimerStop(Before, e)
    [] e.op = "tm.read"       -> TimerRead(Before, e)
    [] e.op = "num.ldu"       -> Ldu(e)
    [] e.op = "num.extra"     -> Extrapolation(e)
    [] e.op = "num.order"     -> NumOrder(e)
    [] e.op = "num.power"     -> PowerLaw(e)
    [] e.op = "crash"         -> {e.a.prop \o ".unexpected-exception"}
    [] OTHER               -> {"unknown operation " \o e.op}

(* creations: the handle is the rank of the creation within the session *)
Creates(e) == e.h = Len(env) + 1

Init == tr \in 1..Len(Traces) /\ l = 0 /\ env = <<>> /\ bad = {}
Step == /\ l < Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l + 1]
           IN /\ env' = IF Creates(e) THEN Append(env, l + 1) ELSE env
              /\ bad' = Verdict(e)
        /\ l' = l + 1 /\ tr' = tr
Next == Step
Spec == Init /\ [][Next]_vars

(* every step of every session conforms; offending steps are reported *)
Conforms == bad = {} \/ PrintT(<<"NONCONFORMING", tr, l, bad>>)
=============================================================================
