--------------------------------- MODULE Jump ---------------------------------
(***************************************************************************)
(* Sweeps with the nodes divided by a number which may change from sweep   *)
(* to sweep: order gained by each sweep, stiff limit; dependence of the    *)
(* approximations on the sweep index.                                      *)
(***************************************************************************)
EXTENDS Sdc, QDelta

(* d = 0: any other approximation.  As long as only divided nodes were used  *)
(* the error is a multiple of tau^(p+1), that a sweep maps to                *)
(* (1/(p+2) - 1/d) tau^(p+2)                                                 *)
JumpOrder(divs, M) ==
  FoldLeft(LAMBDA acc, d : IF acc[2] /\ d = acc[1] + 2 /\ d <= M THEN <<d, TRUE>> ELSE <<acc[1] + 1, acc[2] /\ d > 0>>,
           <<0, TRUE>>, divs)[1]
Divs(name, K, M) == [k \in 1..K |-> IF name = "MIN_SR_FLEX" /\ k > M THEN 0 ELSE Divider(name, k, M)]
Capped(p, cap) == IF p < cap THEN p ELSE cap
(* node j of the series agrees with exp(z tau_j) up to z^p                   *)
NodesAgree(S, c, p, tol) ==
  \A j \in 0..p : j + 1 > Len(S) \/ \A m \in 1..Len(c) :
     Within(S[j + 1][m], RMul(InvFact(j), RPow(c[m], j)), RMul(tol, RPow(RAdd(R1, RAbs(c[m])), j)))
EndAgrees(coeffs, T, p, tol) ==
  \A j \in 0..p : j + 1 > Len(coeffs) \/ Within(coeffs[j + 1], RMul(InvFact(j), RPow(T, j)), RMul(tol, RPow(RAdd(R1, T), j)))
SdcJump(e) ==
  LET a == e.a r == e.r K == a.K name == a.name IN
  IF r.exc # "" THEN {"C36." \o name \o "-raises"}
  ELSE LET Q == MatOf(r.Q) w == VecOf(r.w) c == VecOf(r.nodes) M == Len(c) T == Scalar(r.T) IN
       IF r.QD.sh # <<K, M, M>> THEN {"C36." \o name \o "-shape"}
       ELSE LET Ds == Cube(r.QD) J == 2 * K + 2 tol == RDiv(OrderTolSdc, RI(TolDiv))
                S == SeriesMixed(Q, Ds, K, J)
                p == JumpOrder(Divs(name, K, M), M)
            IN Must("C36." \o name \o "-nodes", NodesAgree(S, c, Capped(p, M), tol))
               \cup Must("C36." \o name \o "-quadrature", EndAgrees(Updated(S, w, J), T, Capped(p + 1, r.order), tol))
               \cup Must("C36." \o name \o "-last-node", r.right => EndAgrees(LastOf(S, J), T, Capped(p, r.order), tol))
(* the matrices themselves, for any number of sweeps                         *)
Divided(e) ==
  LET a == e.a r == e.r K == a.K name == a.name IN
  IF r.exc # "" THEN {"C36." \o name \o "-raises"}
  ELSE LET c == VecOf(r.nodes) M == Len(c) IN
       IF r.QD.sh # <<K, M, M>> THEN {"C36." \o name \o "-shape"}
       ELSE LET Ds == Cube(r.QD) IN
            Must("C36." \o name \o "-divided",
                 \A k \in 1..K, i, j \in 1..M :
                   IF i # j THEN RSign(Ds[k][i][j]) = 0
                   ELSE LET w == RMul(RQ(1, Divider(name, k, M)), c[i]) IN Within(Ds[k][i][i], w, RMul(Eps(4), RAbs(w))))
(* stiff limit: I - D^-1 Q for each sweep, first node dropped when zero        *)
StiffLimit(e) ==
  LET a == e.a r == e.r IN
  IF r.exc # "" THEN {"C36." \o a.name \o "-raises"}
  ELSE LET Q == MatOf(r.Q) M == Len(Q) Ds == Cube(r.QD) c == VecOf(r.nodes)
           s == IF RSign(c[1]) = 0 THEN 1 ELSE 0 n == M - s
       IN IF \E k \in 1..Len(Ds), i \in (1 + s)..M : RSign(Ds[k][i][i]) = 0 THEN {"C36." \o a.name \o "-stiff"}
          ELSE LET E(k) == Mn(n, n, LAMBDA i, j : RSub(IF i = j THEN R1 ELSE R0, RDiv(Q[i + s][j + s], Ds[k][i + s][i + s])))
                   P == FoldLeft(LAMBDA acc, k : MMap(RMatMul(E(k), acc), LAMBDA x : RRound(x, 300)), MId(n), [k \in 1..Len(Ds) |-> k])
                   big == RProd([k \in 1..Len(Ds) |-> RAdd(R1, MNorm(E(k)))])
               IN Must("C36." \o a.name \o "-stiff", RLe(MMaxAbs(P), RMul(Eps(64), big)))

(* ------------------------- dependence on the sweep index -------------------- *)
(* a.dep: "yes", "no" as documented; r.says: isKDependent; r.QD[1] without     *)
(* index, r.QD[k + 1] for index k; r.low: exceptions for the indices below one *)
SweepIndex(e) ==
  LET a == e.a r == e.r name == a.name IN
  IF r.exc # "" THEN {"C37." \o name \o "-raises"}
  ELSE LET Alike(x, y) == x.sh = y.sh /\ LET u == VecOf(x) v == VecOf(y) tol == RMul(Eps(1048576), RMaxAbs(v)) IN \A i \in 1..Len(u) : Within(u[i], v[i], tol)
           same == \A k \in 1..Len(r.QD) : SameArr(r.QD[k], r.QD[1]) \/ Alike(r.QD[k], r.QD[1]) IN
       Must("C37." \o name \o "-announced", r.says = a.dep)
       \cup Must("C37." \o name \o "-same", ~a.dep => same)
       \cup Must("C37." \o name \o "-differs", a.dep => ~same)
       \cup Must("C37." \o name \o "-default", a.dep => SameArr(r.QD[1], r.QD[2]))
       \cup Must("C37." \o name \o "-below-one", a.dep => \A k \in 1..Len(r.low) : r.low[k] # "")
=============================================================================
