-------------------------------- MODULE MCSweep --------------------------------
(***************************************************************************)
(* Deferred correction on u' = lambda u, node by node.  A step starts from  *)
(* u at every node; a sweep visits the nodes one after the other and solves *)
(* one scalar equation at each with the values of this sweep at the nodes   *)
(* before; every sweep may use another approximation; a step ends whenever   *)
(* one stops sweeping, with the value at the last node or with the          *)
(* quadrature of the sweep's values.  Everything is exact.                  *)
(*                                                                         *)
(* The invariants tie this machine to the operators the recorded runs of    *)
(* the solver are compared with (SweepAll, SeriesSweeps, PlainOrder).       *)
(***************************************************************************)
EXTENDS Jump, CSV, Json, IOUtils
CONSTANTS NodeSets,     \* subset of 1..Len(AllNodes)
          Names, Zs,    \* approximations; subset of 1..Len(AllZ)
          MaxSweeps, MaxSteps,
          GenNodes, GenNames, GenSweeps

AllNodes == <<<<RQ(1, 2), R1>>, <<R0, RQ(1, 2), R1>>, <<RQ(1, 3), RQ(2, 3), R1>>, <<RQ(1, 4), RQ(1, 2), RQ(3, 4)>>, <<R0, R1>>, <<R1>>>>
AllZ == <<<<RQ(-1, 2), R0>>, <<RI(-3), R1>>, <<R0, RQ(2, 3)>>, <<RI(2), R0>>, <<RI(-40), R0>>>>
QOf(x) == LET pr == Prims(BasisPolys(x)) IN Vn(Len(x), LAMBDA m : BasisInt(pr, R0, x[m]))
WOf(x) == BasisInt(Prims(BasisPolys(x)), R0, R1)
QTab == TLCEval([s \in 1..Len(AllNodes) |-> QOf(AllNodes[s])])
WTab == TLCEval([s \in 1..Len(AllNodes) |-> WOf(AllNodes[s])])
Div(name) ==                  \* nodes divided by a number
  CASE name = "DIV1" -> 1 [] name = "DIV2" -> 2 [] name = "DIV3" -> 3 [] name = "DIV4" -> 4 [] name = "DIV5" -> 5 [] OTHER -> 0
Approx(name, s) ==
  LET x == AllNodes[s] Q == QTab[s] n == Len(x) IN
  CASE name \in {"BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"} -> Scheme(name, R0, x).Q
    [] name = "PIC" -> Mn(n, n, LAMBDA i, j : R0)
    [] name = "Exact" -> Q
    [] name = "QPar" -> MDiag(DiagOf(Q))
    [] name = "GS" -> TriL(Q)
    [] Div(name) > 0 -> MDiag(VScale(RQ(1, Div(name)), x))
    [] name = "MIN-SR-NS" -> MDiag(VScale(RQ(1, n), x))

VARIABLES s,         \* the nodes
          zi,        \* lambda dt
          step, u,   \* steps done, value they ended with
          names,     \* approximations of the sweeps of this step
          m,         \* node being solved, 0 between sweeps
          old, new,  \* values of the last sweep, of this one
          prev,      \* values the last sweep started from
          colloc     \* this step started from the collocation solution
vars == <<s, zi, step, u, names, m, old, new, prev, colloc>>
Z == AllZ[zi]
M == Len(AllNodes[s])
Q == QTab[s]
CSum(f(_), k) == FoldLeft(LAMBDA a, j : CAdd(a, f(j)), C0, [j \in 1..k |-> j])
Flat(V) == Vn(Len(V), LAMBDA j : V[j][1]) \o Vn(Len(V), LAMBDA j : V[j][2])
Unflat(v) == LET n == Len(v) \div 2 IN Vn(n, LAMBDA j : <<v[j], v[n + j]>>)
CollocSol(v) == Unflat(MVec(ZInverse(MSub(MId(2 * M), ZMat(Z, Q))), ZConst(v, M)))

Init == /\ s \in NodeSets /\ zi \in Zs /\ step = 0 /\ u = <<RQ(3, 2), RQ(-1, 4)>> /\ names = <<>> /\ m = 0
        /\ old = [j \in 1..Len(AllNodes[s]) |-> <<RQ(3, 2), RQ(-1, 4)>>] /\ new = <<>> /\ prev = <<>> /\ colloc = FALSE
StartSweep(name) ==
  /\ m = 0 /\ Len(names) < MaxSweeps /\ step < MaxSteps
  /\ names' = Append(names, name)
  /\ IF name = "Exact"        \* not triangular: all nodes at once
     THEN /\ ZInverse(MSub(MId(2 * M), ZMat(Z, Q))) # <<>>
          /\ new' = CollocSol(u) /\ m' = M + 1 /\ UNCHANGED <<s, zi, step, u, old, prev, colloc>>
     ELSE m' = 1 /\ new' = <<>> /\ UNCHANGED <<s, zi, step, u, old, prev, colloc>>
SolveNode ==
  /\ m \in 1..M
  /\ LET D == Approx(names[Len(names)], s)
         rhs == CAdd(u, CMul(Z, CAdd(CSum(LAMBDA j : CScale(RSub(Q[m][j], D[m][j]), old[j]), M),
                                     CSum(LAMBDA j : CScale(D[m][j], new[j]), m - 1))))
         den == CSub(C1, CScale(D[m][m], Z))
     IN den # C0 /\ new' = Append(new, CRound(CDiv(rhs, den), 400))      \* otherwise the solver refuses
  /\ m' = m + 1 /\ UNCHANGED <<s, zi, step, u, names, old, prev, colloc>>
EndSweep ==
  /\ m = M + 1 /\ prev' = old /\ old' = new /\ new' = <<>> /\ m' = 0
  /\ UNCHANGED <<s, zi, step, u, names, colloc>>
EndStep(quadrature) ==
  /\ m = 0 /\ step < MaxSteps /\ names # <<>>
  /\ LET v == IF quadrature THEN CAdd(u, CMul(Z, CSum(LAMBDA j : CScale(WTab[s][j], old[j]), M))) ELSE old[M]
         r == CRound(v, 400)
     IN \E c \in (IF step + 1 < MaxSteps THEN {TRUE, FALSE} ELSE {FALSE}) :
        /\ u' = r /\ colloc' = c
        /\ old' = IF c THEN CollocSol(r) ELSE [j \in 1..M |-> r]
  /\ step' = step + 1 /\ names' = <<>> /\ prev' = <<>> /\ new' = <<>> /\ m' = 0 /\ UNCHANGED <<s, zi>>
Next == (\E name \in Names : StartSweep(name)) \/ SolveNode \/ EndSweep \/ EndStep(TRUE) \/ EndStep(FALSE)
Spec == Init /\ [][Next]_vars

Tiny == RPow(R2, -200)
Close(V, W) == Len(V) = Len(W) /\ \A j \in 1..Len(V) : CWithin(V[j], W[j], RMul(Tiny, RAdd(R1, RAdd(CAbs1(V[j]), CAbs1(W[j])))))
Swept == m = 0 /\ prev # <<>>
LastD == Approx(names[Len(names)], s)
Residual(V) == Vn(M, LAMBDA i : CSub(CAdd(u, CMul(Z, CSum(LAMBDA j : CScale(Q[i][j], V[j]), M))), V[i]))
(* the node by node sweep solves the sweep's linear system *)
SweepEquation ==
  Swept => Close(Vn(M, LAMBDA i : CSub(old[i], CMul(Z, CSum(LAMBDA j : CScale(LastD[i][j], old[j]), M)))),
                 Vn(M, LAMBDA i : CAdd(u, CMul(Z, CSum(LAMBDA j : CScale(RSub(Q[i][j], LastD[i][j]), prev[j]), M)))))
(* residual after a sweep = z (Q - QDelta) (change of the values) *)
ResidualIdentity ==
  Swept => Close(Residual(old), Vn(M, LAMBDA i : CMul(Z, CSum(LAMBDA j : CScale(RSub(Q[i][j], LastD[i][j]), CSub(old[j], prev[j])), M))))
(* the collocation solution stays whatever the approximation *)
FixedPoint == (colloc /\ m = 0) => Close(Residual(old), Vn(M, LAMBDA i : C0))
ExactSweep == (Swept /\ names[Len(names)] = "Exact") => Close(Residual(old), Vn(M, LAMBDA i : C0))
(* all sweeps of the step by the matrix form used for the verdicts *)
MatrixForm ==
  (Swept /\ ~colloc) =>
    LET K == Len(names)
        Ds == [k \in 1..K |-> Approx(names[k], s)]
        invs == [k \in 1..K |-> ZInverse(MSub(MId(2 * M), ZMat(Z, Ds[k])))]
    IN Close(Unflat(SweepAll(Z, Q, Ds, invs, u, K)[K + 1][1]), old)
(* order: every sweep adds one whatever the approximation, the trapezoidal rule one more once *)
Mixed(k, q) == LET p == k + (IF q THEN 1 ELSE 0) IN p
Sers(ns, J) == SeriesMixed(Q, [k \in 1..Len(ns) |-> Approx(ns[k], s)], Len(ns), J)
QuadOrder ==      \* exactness of the weights
  CHOOSE p \in 1..(2 * M) : /\ \A k \in 1..p : Within(RDot(WTab[s], VPow(AllNodes[s], k - 1)), RQ(1, k), Tiny)
                            /\ ~Within(RDot(WTab[s], VPow(AllNodes[s], p)), RQ(1, p + 1), Tiny)
Order ==
  (Swept /\ ~colloc) =>
    LET K == Len(names) J == MaxSweeps + 3 S == Sers(names, J)
        cap == QuadOrder
        uniform == \A k \in 1..K : names[k] = names[1]
        low(q) == LET p == Mixed(K, q) IN IF p < cap THEN p ELSE cap
    IN /\ Agrees(Updated(S, WTab[s], J), low(TRUE), Tiny)
       /\ (AllNodes[s][M] = R1) => Agrees(LastOf(S, J), low(FALSE), Tiny)
       /\ (uniform /\ names[1] \in Range(SixNames)) =>
            /\ Agrees(Updated(S, WTab[s], J), PlainOrder(cap, names[1], K, "QUADRATURE"), Tiny)
            /\ (AllNodes[s][M] = R1) => Agrees(LastOf(S, J), PlainOrder(cap, names[1], K, "LASTNODE"), Tiny)
       /\ LET p == JumpOrder([k \in 1..K |-> Div(names[k])], M) IN
          /\ NodesAgree(S, AllNodes[s], Capped(p, M), Tiny)
          /\ Agrees(Updated(S, WTab[s], J), Capped(p + 1, cap), Tiny)
          /\ (AllNodes[s][M] = R1) => Agrees(LastOf(S, J), Capped(p, cap), Tiny)
       /\ (uniform /\ K <= 4) =>
            LET T == SeriesSweeps(Q, Approx(names[1], s), K, J)[K + 1] IN
            \A j \in 1..(J + 1) : VWithin(T[j], S[j], Tiny)
(* the nodes divided by 1, 2, .., M: nothing is left of the error when the     *)
(* equation is infinitely stiff (the first node dropped when it is zero)       *)
StiffNothingLeft ==
  (Swept /\ Len(names) = M /\ \A k \in 1..M : Div(names[k]) = k) =>
    LET x == AllNodes[s] f == IF RSign(x[1]) = 0 THEN 1 ELSE 0 n == M - f
        E(k) == Mn(n, n, LAMBDA i, j : RSub(IF i = j THEN R1 ELSE R0, RDiv(RMul(RI(k), Q[i + f][j + f]), x[i + f])))
    IN RLe(MMaxAbs(FoldLeft(LAMBDA acc, k : RMatMul(E(k), acc), MId(n), [k \in 1..M |-> k])), Tiny)

(* ---------------------- runs to be replayed on the solver ------------------ *)
GenVars == <<names>>
Frozen == UNCHANGED <<s, zi, step, u, m, old, new, prev, colloc>>
GenInit == /\ s = 1 /\ zi = 1 /\ step = 0 /\ u = C0 /\ names = <<>> /\ m = 0 /\ old = <<>> /\ new = <<>> /\ prev = <<>> /\ colloc = FALSE
GenNext == /\ Len(names) < GenSweeps /\ Frozen
           /\ \E a \in {RandomElement(GenNames)} : names' = Append(names, a)
GenSpec == GenInit /\ [][GenNext]_vars
Setting(k) ==
  [names |-> SubSeq(names, 1, k), nodes |-> RandomElement(GenNodes), z |-> RandomElement(1..12), steps |-> RandomElement(1..3),
   update |-> RandomElement({"QUADRATURE", "LASTNODE"}), monitors |-> RandomElement({"", "residuals", "errors", "both"})]
Done == Len(names) # GenSweeps \/ CSVWrite("%1$s", <<ToJson(Setting(RandomElement(0..GenSweeps)))>>, IOEnv.BEHAVIOURS)
=============================================================================
