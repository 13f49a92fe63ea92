--------------------------------- MODULE Sdc ----------------------------------
(***************************************************************************)
(* The Dahlquist problem u' = lambda u: Runge-Kutta steps, deferred        *)
(* correction sweeps, errors, order of the sweeps.  Complex vectors are    *)
(* real vectors of twice the size (real parts, then imaginary parts); the  *)
(* product by z is then a real matrix.                                      *)
(***************************************************************************)
EXTENDS Butcher

ZMat(z, A) ==
  LET n == Len(A) IN
  Mn(2 * n, 2 * n, LAMBDA i, j :
    IF i <= n THEN (IF j <= n THEN RMul(z[1], A[i][j]) ELSE RNeg(RMul(z[2], A[i][j - n])))
    ELSE (IF j <= n THEN RMul(z[2], A[i - n][j]) ELSE RMul(z[1], A[i - n][j - n])))
ZConst(u, n) == Vn(2 * n, LAMBDA i : IF i <= n THEN u[1] ELSE u[2])
ZAt(V, m) == LET n == Len(V) \div 2 IN <<V[m], V[n + m]>>
ZDot(w, V) == LET n == Len(w) IN <<RDot(w, SubSeq(V, 1, n)), RDot(w, SubSeq(V, n + 1, 2 * n))>>
ZInverse(P) == MSolveBits(P, MId(Len(P)), 300)
MVecR(A, v) == VRound(MVec(A, v), 300)
CScalar(x) == CVecOf(x)[1]
Zof(a) == CScale(RDiv(Scalar(a.T), RI(a.n)), CScalar(a.lam))

(* ------------------------------ Runge-Kutta -------------------------------- *)
(* [R |-> stability function at z, e |-> bound of the rounding errors of one   *)
(*  step relative to the value it starts from]                                 *)
StepFactor(A, b, z) ==
  LET n == Len(b) ZA == ZMat(z, A) inv == ZInverse(MSub(MId(2 * n), ZA)) IN
  IF inv = <<>> THEN <<>>
  ELSE LET k == MVec(inv, ZConst(C1, n))
           zb == RMul(CAbs1(z), VAbsSum(b))
           kk == RMaxAbs(k)
       IN [R |-> CAdd(C1, CMul(z, ZDot(b, k))),
           c |-> RMul(Eps(16 * n), RMul(MNorm(inv), RAdd(R1, MNorm(ZA)))),
           e |-> RMul(Eps(16 * n), RAdd(R1, RMul(zb, RMul(kk, RAdd(R1, RMul(MNorm(inv), RAdd(R1, MNorm(ZA))))))))]
RkSolve(e) ==
  LET a == e.a r == e.r IN
  IF a.emb /\ a.w2.sh = <<-1>> THEN Must("C26.no-embedded-weights", r.exc # "")
  ELSE IF r.exc # "" THEN
    \* a matrix that is singular up to rounding may be refused
    LET S == StepFactor(MatOf(a.A), VecOf(IF a.emb THEN a.w2 ELSE a.w), Zof(a))
    IN Must("C26.raises", r.exc = "LinAlgError" /\ (S = <<>> \/ RLt(R1, S.c)))
  ELSE IF ~IsVec(r.u, a.n + 1) \/ r.u.ty # "c" THEN {"C26.shape"}
  ELSE LET A == MatOf(a.A) b == VecOf(IF a.emb THEN a.w2 ELSE a.w)
           u == CVecOf(r.u)
           S == StepFactor(A, b, Zof(a))
       IN Must("C26.initial", u[1] = CScalar(a.u0))
          \cup (IF S = <<>> THEN {}
                ELSE Must("C26.step", \A i \in 1..a.n : CWithin(u[i + 1], CMul(S.R, u[i]), RMul(S.e, CAbs1(u[i])))))

(* ------------------------------- errors --------------------------------------- *)
Exact(a, t) == CMul(CScalar(a.u0), CExp(CScale(t, CScalar(a.lam))))
Tick(a, i) == RMul(RDiv(RI(i), RI(a.n)), Scalar(a.T))
CAbs(c) == RSqrtFloor(CNorm2(c), 250)
MaxError(e) ==
  LET a == e.a r == e.r IN
  IF r.exc # "" THEN {"C29." \o a.what \o "-raises"}
  ELSE IF r.err.sh # <<>> \/ r.err.ty # "f" THEN {"C29." \o a.what \o "-type"}
  ELSE LET u == CVecOf(a.u)
           ue == Vn(a.n + 1, LAMBDA i : Exact(a, Tick(a, i - 1)))
           err == RMaxAbs(Vn(a.n + 1, LAMBDA i : CAbs(CSub(u[i], ue[i]))))
           big == RMaxAbs(Vn(a.n + 1, LAMBDA i : RAdd(CAbs1(u[i]), CAbs1(ue[i]))))
           arg == RMul(RAbs(Scalar(a.T)), CAbs1(CScalar(a.lam)))
       IN Must("C29." \o a.what, Within(Scalar(r.err), err, RMul(Eps(64), RMul(big, RAdd(R1, arg)))))

(* ------------------------------- sweeps ---------------------------------------- *)
(* U^k and bounds of their rounding errors, k = 0..K, from the value u           *)
SweepAll(z, Q, QDs, invs, u, K) ==
  LET n == Len(Q)
      rhs == ZConst(u, n)
      step(acc, k) ==
        LET D == QDs[k] Z == ZMat(z, MSub(Q, D)) old == acc[Len(acc)]
            new == MVecR(invs[k], VAdd(rhs, MVec(Z, old[1])))
            au == CAbs1(u) zn == CAbs1(z)
            e == RMul(MNorm(invs[k]),
                   RAdd(RMul(MNorm(Z), old[2]),
                        RMul(Eps(16 * n), RSum(<<au, RMul(RMul(zn, RAdd(MNorm(Q), MNorm(D))), RMaxAbs(old[1])),
                                               RMul(RAdd(R1, RMul(zn, MNorm(D))), RMaxAbs(new))>>))))
        IN Append(acc, <<new, RRound(e, 60)>>)
  IN FoldLeft(step, <<<<rhs, R0>>>>, [k \in 1..K |-> k])
(* the matrices of the sweeps: one for all of them or one each                  *)
ShapesOk(a) == LET M == a.Q.sh[1] sh == a.QD.sh IN
  a.Q.sh = <<M, M>> /\ (sh = <<M, M>> \/ sh = <<a.K, M, M>>) /\ a.w.sh \in {<<-1>>, <<M>>}
SingularSweep(a) ==             \* a sweep matrix without an inverse
  LET M == a.Q.sh[1] z == Zof(a)
      Ds == IF Len(a.QD.sh) = 2 THEN <<MatOf(a.QD)>> ELSE Cube(a.QD)
  IN a.K > 0 /\ \E k \in 1..Len(Ds) : ZInverse(MSub(MId(2 * M), ZMat(z, Ds[k]))) = <<>>
Monitored == {"residuals", "errors"}
Invertible(invs) == \A k \in 1..Len(invs) : invs[k] # <<>>
MonVec(x, k, i, n, M) ==        \* recorded monitor, sweep k, step i, as M complex numbers
  Vn(M, LAMBDA m : x[((k - 1) * n + (i - 1)) * M + m])
SdcSolve(e, prop) ==
  LET a == e.a r == e.r IN
  IF ~ShapesOk(a) THEN Must(prop \o ".shape-accepted", r.exc # "")
  ELSE IF ~(Range(a.monitors) \subseteq Monitored) THEN Must(prop \o ".monitor-accepted", r.exc # "")
  ELSE IF r.exc # "" THEN Must(prop \o ".raises", r.exc = "LinAlgError" /\ SingularSweep(a))
  ELSE IF ~IsVec(r.u, a.n + 1) \/ r.u.ty # "c" THEN {prop \o ".shape"}
  ELSE LET Q == MatOf(a.Q) M == Len(Q) n == a.n K == a.K z == Zof(a)
           single == Len(a.QD.sh) = 2
           D1 == IF single THEN MatOf(a.QD) ELSE <<>>
           DK == IF single THEN <<>> ELSE Cube(a.QD)
           inv(D) == ZInverse(MSub(MId(2 * M), ZMat(z, D)))
           I1 == IF single THEN inv(D1) ELSE <<>>
           QDs == TLCEval([k \in 1..K |-> IF single THEN D1 ELSE DK[k]])
           invs == TLCEval([k \in 1..K |-> IF single THEN I1 ELSE inv(DK[k])])
           u == CVecOf(r.u)
           noW == a.w.sh = <<-1>>
           w == IF noW THEN <<>> ELSE VecOf(a.w)
           zn == CAbs1(z)
           c == Vn(M, LAMBDA m : RSum(Q[m]))
           wantMon == Range(a.monitors)
           resid == IF "residuals" \in wantMon THEN CVecOf(r.residuals) ELSE <<>>
           errs == IF "errors" \in wantMon THEN CVecOf(r.errors) ELSE <<>>
           monShape == <<K + 1, n, M>>
           ZQ == ZMat(z, Q)
           dt == RDiv(Scalar(a.T), RI(n))
           arg(t) == RMul(CAbs1(CScalar(a.lam)), RAbs(t))
           stepOk(i, U) ==
             LET last == U[K + 1]
                 want == IF noW THEN ZAt(last[1], M) ELSE CAdd(u[i], CMul(z, ZDot(w, last[1])))
                 tol == IF noW THEN last[2]
                        ELSE RAdd(RMul(RMul(zn, VAbsSum(w)), RAdd(last[2], RMul(Eps(64 * M), RMaxAbs(last[1])))), RMul(Eps(32), CAbs1(u[i])))
             IN CWithin(u[i + 1], want, tol)
           residOk(i, U) == \A k \in 1..(K + 1) :
             LET x == VSub(VAdd(ZConst(u[i], M), MVec(ZQ, U[k][1])), U[k][1])
                 got == MonVec(resid, k, i, n, M)
                 f == RAdd(R1, RMul(zn, MNorm(Q)))
                 tol == RAdd(RMul(f, U[k][2]), RMul(Eps(32 * M), RMul(f, RAdd(RMaxAbs(U[k][1]), CAbs1(u[i])))))
             IN \A m \in 1..M : CWithin(got[m], ZAt(x, m), tol)
           errsOk(i, U) == \A k \in 1..(K + 1) :
             LET got == MonVec(errs, k, i, n, M) IN
             \A m \in 1..M :
               LET t == RAdd(Tick(a, i - 1), RMul(dt, c[m])) ue == Exact(a, t)
                   tol == RAdd(U[k][2], RMul(Eps(64), RAdd(RMaxAbs(U[k][1]),
                            RMul(CAbs1(ue), RAdd(R1, RMul(arg(RAdd(RAbs(Tick(a, i - 1)), RMul(RAbs(dt), MNorm(Q)))), RI(M)))))))
               IN CWithin(got[m], CSub(ZAt(U[k][1], m), ue), tol)
           checks(i) == LET U == SweepAll(z, Q, QDs, invs, u[i], K)
                        IN Must(prop \o ".step", stepOk(i, U))
                           \cup (IF resid # <<>> THEN Must(prop \o ".residuals", residOk(i, U)) ELSE {})
                           \cup (IF errs # <<>> THEN Must(prop \o ".errors", errsOk(i, U)) ELSE {})
       IN Must(prop \o ".initial", u[1] = CScalar(a.u0))
          \cup Must(prop \o ".monitored", Range(r.keys) = wantMon)
          \cup (IF ("residuals" \in wantMon /\ r.residuals.sh # monShape) \/ ("errors" \in wantMon /\ r.errors.sh # monShape)
                THEN {prop \o ".monitor-shape"}
                ELSE IF ~Invertible(invs) THEN {}
                ELSE UNION {checks(i) : i \in 1..n})
(* the same call with and without monitors *)
SdcMonitors(e) ==
  IF e.r.exc # "" THEN {"C27.monitoring-raises"}
  ELSE LET u == CVecOf(e.r.u) v == CVecOf(e.r.v) big == RMaxAbs(Vn(Len(u), LAMBDA i : CAbs1(u[i]))) IN
       Must("C27.monitoring", Len(u) = Len(v) /\ \A i \in 1..Len(u) : CWithin(u[i], v[i], RMul(Eps(1024), big)))

(* -------------------------------- order ---------------------------------------- *)
(* coefficients of z^0..z^J in the sweeps: sequence of vectors                    *)
SeriesStep(Q, D, old, J) ==
  LET n == Len(Q) E == MSub(Q, D) IN
  FoldLeft(LAMBDA acc, j : Append(acc, VRound(VAdd(MVec(D, acc[j]), MVec(E, old[j])), 300)), <<Ones(n)>>, [j \in 1..J |-> j])
SeriesSweeps(Q, D, K, J) ==
  LET zero == Vn(Len(Q), LAMBDA i : R0)
      first == <<Ones(Len(Q))>> \o [j \in 1..J |-> zero]
  IN FoldLeft(LAMBDA acc, k : Append(acc, SeriesStep(Q, D, acc[Len(acc)], J)), <<first>>, [k \in 1..K |-> k])
Updated(series, w, J) == [j \in 1..(J + 1) |-> IF j = 1 THEN R1 ELSE RDot(w, series[j - 1])]
LastOf(series, J) == [j \in 1..(J + 1) |-> series[j][Len(series[j])]]
InvFact(j) == RDiv(R1, RProd([i \in 1..j |-> RI(i)]))
(* agreement with the exponential up to z^p *)
Agrees(coeffs, p, tol) == \A j \in 0..p : j + 1 > Len(coeffs) \/ Within(coeffs[j + 1], InvFact(j), tol)
SixNames == <<"BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE">>
PlainOrder(order, name, K, update) ==
  LET base == IF K = 0 THEN 0 ELSE K + (IF name \in {"TRAP", "TRAPAR"} THEN 1 ELSE 0)
      p == base + (IF update = "QUADRATURE" THEN 1 ELSE 0)
  IN IF p < order THEN p ELSE order

(* the documented combinations with a bonus:                                     *)
(* <<update, approximation, sweeps, nodes, families, quadrature types, bonus>>   *)
AllQ == {"GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"}
Cheby == {"CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"}
RR == {"RADAU-RIGHT"}  RL == {"RADAU-LEFT"}  LB == {"LOBATTO"}  GS1 == {"GAUSS"}
Bonus == TLCEval({
  <<"QUADRATURE", "TRAP", 1, 3, {"EQUID"}, RL, 1>>, <<"QUADRATURE", "TRAP", 2, 4, {"CHEBY-2"}, LB, 1>>,
  <<"QUADRATURE", "TRAP", 2, 4, {"CHEBY-3"}, RL, 1>>, <<"QUADRATURE", "TRAP", 2, 4, {"CHEBY-4"}, RR \cup LB, 1>>,
  <<"QUADRATURE", "TRAPAR", 2, 3, {"CHEBY-3"}, RL, 1>>, <<"QUADRATURE", "TRAPAR", 2, 3, {"CHEBY-4"}, RR, 1>>,
  <<"QUADRATURE", "TRAPAR", 3, 3, {"CHEBY-3"}, RL, 1>>,
  <<"QUADRATURE", "BE", 3, 3, {"CHEBY-3"}, RL, 1>>, <<"QUADRATURE", "BE", 3, 3, {"CHEBY-4"}, RR, 1>>,
  <<"QUADRATURE", "FE", 3, 3, {"CHEBY-1"}, RR, 1>>, <<"QUADRATURE", "FE", 3, 3, {"CHEBY-3"}, RL \cup LB, 1>>,
  <<"QUADRATURE", "FE", 3, 3, {"CHEBY-4"}, RR, 1>>,
  <<"QUADRATURE", "BEPAR", 3, 3, {"EQUID"}, RL, 1>>, <<"QUADRATURE", "BEPAR", 3, 3, {"CHEBY-1", "CHEBY-2"}, RL \cup RR, 1>>,
  <<"QUADRATURE", "BEPAR", 3, 3, {"CHEBY-3", "CHEBY-4"}, AllQ, 1>>,
  <<"QUADRATURE", "TRAPAR", 3, 4, {"EQUID"} \cup Cheby, AllQ, 1>>,
  <<"QUADRATURE", "SOE", 1, 2, {"LEGENDRE"}, RR, 1>>, <<"QUADRATURE", "SOE", 1, 3, {"EQUID"}, RL, 1>>,
  <<"QUADRATURE", "SOE", 1, 4, {"CHEBY-2"}, LB, 1>>, <<"QUADRATURE", "SOE", 2, 4, {"CHEBY-4"}, RL, 1>>,
  <<"QUADRATURE", "SOE", 3, 3, {"CHEBY-1"}, RR, 1>>, <<"QUADRATURE", "SOE", 3, 3, {"CHEBY-3"}, RL \cup LB, 1>>,
  <<"QUADRATURE", "SOE", 3, 3, {"CHEBY-4"}, GS1 \cup RR, 1>>, <<"QUADRATURE", "SOE", 3, 4, {"CHEBY-2"}, RL, 1>>,
  <<"QUADRATURE", "SOE", 3, 4, {"CHEBY-4"}, GS1, 1>>,
  <<"LASTNODE", "BE", 4, 3, {"CHEBY-4"}, RR, 1>>, <<"LASTNODE", "FE", 3, 3, {"EQUID"}, RR, 1>>, <<"LASTNODE", "FE", 4, 3, {"CHEBY-4"}, RR, 1>>,
  <<"LASTNODE", "TRAP", 2, 3, {"EQUID", "CHEBY-1", "CHEBY-2"}, LB, 1>>, <<"LASTNODE", "TRAP", 2, 3, {"LEGENDRE"}, AllQ, 1>>,
  <<"LASTNODE", "TRAP", 2, 4, {"EQUID"}, LB, 2>>, <<"LASTNODE", "TRAP", 2, 4, {"EQUID"}, RR, 1>>,
  <<"LASTNODE", "TRAP", 2, 4, {"LEGENDRE"} \cup Cheby, AllQ, 1>>, <<"LASTNODE", "TRAP", 3, 3, {"LEGENDRE"}, RR, 1>>,
  <<"LASTNODE", "TRAP", 4, 4, {"LEGENDRE"}, LB, 1>>, <<"LASTNODE", "TRAP", 4, 4, {"LEGENDRE"}, RR, 2>>,
  <<"LASTNODE", "BEPAR", 3, 2, {"CHEBY-2"}, RR, 1>>, <<"LASTNODE", "BEPAR", 4, 3, {"EQUID"} \cup Cheby, RR, 1>>,
  <<"LASTNODE", "BEPAR", 4, 3, {"CHEBY-3", "CHEBY-4"}, LB, 1>>,
  <<"LASTNODE", "TRAPAR", 3, 3, {"CHEBY-4"}, RR, 1>>, <<"LASTNODE", "TRAPAR", 4, 4, {"EQUID"} \cup Cheby, AllQ, 1>>,
  <<"LASTNODE", "SOE", 1, 2, {"EQUID", "CHEBY-3"}, RR, 1>>, <<"LASTNODE", "SOE", 1, 3, {"EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2"}, LB, 1>>,
  <<"LASTNODE", "SOE", 1, 4, {"EQUID", "CHEBY-3"}, RR, 1>>, <<"LASTNODE", "SOE", 2, 3, {"LEGENDRE"}, RR, 1>>,
  <<"LASTNODE", "SOE", 2, 4, {"CHEBY-4"}, RR, 1>>, <<"LASTNODE", "SOE", 3, 3, {"LEGENDRE"}, RR, 1>>,
  <<"LASTNODE", "SOE", 3, 4, {"CHEBY-2"}, RR, 1>>, <<"LASTNODE", "SOE", 4, 3, {"LEGENDRE", "CHEBY-3"}, RR, 1>>,
  <<"LASTNODE", "SOE", 4, 3, {"CHEBY-4"}, AllQ, 1>>, <<"LASTNODE", "SOE", 4, 4, {"EQUID", "CHEBY-2"}, RR, 1>>,
  <<"LASTNODE", "SOE", 4, 4, {"LEGENDRE"}, LB, 1>>})
BonusOf(update, name, K, n, nt, qt) ==
  FoldLeft(LAMBDA acc, b : acc + b[7], 0,
           SetToSeq({b \in Bonus : b[1] = update /\ b[2] = name /\ b[3] = K /\ b[4] = n /\ nt \in b[5] /\ qt \in b[6]}))
OrderTolSdc == RPow(RI(10), -11)
(* one collocation setting: e.r.QD[name], e.r.pred[name][update][K + 1]           *)
SdcOrder(e) ==
  LET a == e.a r == e.r IN
  IF r.exc # "" THEN {"C28.raises"}
  ELSE LET Q == MatOf(r.Q) w == VecOf(r.w) M == Len(w) KM == a.K
           J == (IF r.order < KM + 2 THEN r.order ELSE KM + 2) + 1
           right == a.qt \in {"RADAU-RIGHT", "LOBATTO"}
           tol == RDiv(OrderTolSdc, RI(TolDiv))
           one(x) ==
             LET name == SixNames[x] D == MatOf(r.QD[x])
                 S == SeriesSweeps(Q, D, KM, J)
             IN UNION {LET p == PlainOrder(r.order, name, K, "QUADRATURE") q == PlainOrder(r.order, name, K, "LASTNODE") IN
                  Must("C28.order-" \o name, Agrees(Updated(S[K + 1], w, J), p, tol) /\ (right => Agrees(LastOf(S[K + 1], J), q, tol)))
                  \cup Must("C28.announced-" \o name, r.pred[x][1][K + 1] = p + BonusOf("QUADRATURE", name, K, M, a.nt, a.qt)
                                               /\ r.pred[x][2][K + 1] = q + BonusOf("LASTNODE", name, K, M, a.nt, a.qt))
                  : K \in 0..KM}
       IN UNION {one(x) : x \in 1..6}
(* what is announced for any number of nodes and sweeps *)
SdcPredict(e) ==
  LET a == e.a r == e.r IN
  IF r.exc # "" THEN {"C28.raises"}
  ELSE UNION {LET name == SixNames[x] IN UNION {
           Must("C28.announced-" \o name,
                /\ r.pred[x][1][i] = PlainOrder(r.order, name, a.ks[i], "QUADRATURE") + BonusOf("QUADRATURE", name, a.ks[i], a.n, a.nt, a.qt)
                /\ r.pred[x][2][i] = PlainOrder(r.order, name, a.ks[i], "LASTNODE") + BonusOf("LASTNODE", name, a.ks[i], a.n, a.nt, a.qt))
           : i \in 1..Len(a.ks)} : x \in 1..6}
(* sweeps with any approximations: every sweep adds one order, the quadrature  *)
(* of the values one more, up to the order of the collocation method            *)
RECURSIVE SeriesMixed(_, _, _, _)
SeriesMixed(Q, Ds, K, J) ==
  IF K = 0 THEN <<Ones(Len(Q))>> \o [j \in 1..J |-> Vn(Len(Q), LAMBDA i : R0)]
  ELSE SeriesStep(Q, Ds[K], SeriesMixed(Q, Ds, K - 1, J), J)
SdcMixed(e) ==
  LET K == e.a.K r == e.r Q == MatOf(r.Q) w == VecOf(r.w)
      Ds == IF K = 0 THEN <<>> ELSE Cube(r.QD)
      J == K + 2
      S == SeriesMixed(Q, Ds, K, J)
      tol == RDiv(OrderTolSdc, RI(TolDiv))
      low(p) == IF p < r.order THEN p ELSE r.order
  IN Must("C28.mixed-quadrature", Agrees(Updated(S, w, J), low(K + 1), tol))
     \cup (IF r.right THEN Must("C28.mixed-last-node", Agrees(LastOf(S, J), low(K), tol)) ELSE {})
(* many sweeps on a contractive problem end on the collocation solution           *)
SdcFixed(e) ==
  LET a == e.a r == e.r IN
  IF r.exc # "" THEN {"C28.fixed-point-raises"}
  ELSE LET Q == MatOf(a.Q) D == MatOf(a.QD) w == VecOf(a.w) M == Len(w) z == Zof(a)
           inv == ZInverse(MSub(MId(2 * M), ZMat(z, D)))
           G == MNorm(RMatMul(inv, ZMat(z, MSub(Q, D))))
           U == MVec(ZInverse(MSub(MId(2 * M), ZMat(z, Q))), ZConst(C1, M))
           u == CVecOf(r.u) v == CVecOf(r.v)
           tol == RMul(RAdd(RPow(G, a.K), Eps(1024 * M)), RMul(RI(4), RMaxAbs(U)))
       IN IF RLt(Half, G) THEN {}
          ELSE Must("C28.fixed-point", CWithin(u[2], CMul(u[1], CAdd(C1, CMul(z, ZDot(w, U)))), RMul(CAbs1(u[1]), tol))
                                    /\ CWithin(v[2], CMul(v[1], ZAt(U, M)), RMul(CAbs1(v[1]), tol)))
=============================================================================
