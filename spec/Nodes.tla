------------------------------- MODULE Nodes --------------------------------
(***************************************************************************)
(* Quadrature nodes: orthogonal polynomial families by their monic three   *)
(* term recurrence  p_{k+1} = (x - alpha_k) p_k - beta_k p_{k-1},          *)
(* Gauss / Radau / Lobatto nodes as zeros, and the verdicts on recorded    *)
(* calls of qmat.nodes.NodesGenerator.                                     *)
(***************************************************************************)
EXTENDS Rec

NodeTypes == {"EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"}
QuadTypes == {"GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"}
HasLeft(q) == q \in {"RADAU-LEFT", "LOBATTO"}
HasRight(q) == q \in {"RADAU-RIGHT", "LOBATTO"}
MinNodes(q) == IF HasLeft(q) THEN 2 ELSE 1

(* weights 1, (1-x^2)^-1/2, (1-x^2)^1/2, ((1+x)/(1-x))^1/2, ((1-x)/(1+x))^1/2 *)
AlphaC(f, k) == IF k = 0 /\ f = "CHEBY-3" THEN Half
                ELSE IF k = 0 /\ f = "CHEBY-4" THEN RQ(-1, 2) ELSE R0
BetaC(f, k) ==                  \* k >= 1
  IF f = "LEGENDRE" THEN IF k < 20000 THEN RQ(k * k, 4 * k * k - 1)
                         ELSE LET q == RMul(RI(k), RI(k)) IN RDiv(q, RSub(RMul(RI(4), q), R1))
  ELSE IF f = "CHEBY-1" /\ k = 1 THEN Half ELSE RQ(1, 4)
Mass(f) == CASE f = "LEGENDRE" -> R2
             [] f = "CHEBY-2" -> RMul(Half, Pi)
             [] OTHER -> Pi

NB == 300
(* <<p_{n-1}(x), p_n(x)>> (p_{-1} = 0) *)
PolyPair(f, n, x) ==
  FoldLeft(LAMBDA acc, k :
     <<acc[2], RRound(RSub(RMul(RSub(x, AlphaC(f, k)), acc[2]),
                           IF k = 0 THEN R0 ELSE RMul(BetaC(f, k), acc[1])), NB)>>,
     <<R0, R1>>, [k \in 1..n |-> k - 1])

(* last recurrence entries <<alpha, beta>> that put the required boundaries in the spectrum *)
LastPair(f, q, n) ==
  LET k == n - 1 IN
  CASE q = "GAUSS" -> <<AlphaC(f, k), IF k = 0 THEN Mass(f) ELSE BetaC(f, k)>>
    [] q \in {"RADAU-LEFT", "RADAU-RIGHT"} ->
         LET b == IF q = "RADAU-LEFT" THEN RI(-1) ELSE R1
             p == PolyPair(f, n - 1, b)
         IN <<RSub(b, IF k = 0 THEN R0 ELSE RDiv(RMul(BetaC(f, k), p[1]), p[2])),
              IF k = 0 THEN Mass(f) ELSE BetaC(f, k)>>
    [] q = "LOBATTO" ->
         LET r == PolyPair(f, n - 1, R1) s == PolyPair(f, n - 1, RI(-1))
             u == RDiv(r[1], r[2]) v == RDiv(s[1], s[2])
             \* 1 = alpha + beta u,  -1 = alpha + beta v
             be == RDiv(R2, RSub(u, v))
         IN <<RSub(R1, RMul(be, u)), be>>

(* the polynomial whose n zeros are the nodes *)
NodePoly(f, q, n, last, x) ==
  IF q = "GAUSS" THEN PolyPair(f, n, x)[2]
  ELSE LET p == PolyPair(f, n - 1, x)
       IN RSub(RMul(RSub(x, last[1]), p[2]), IF n = 1 THEN R0 ELSE RMul(last[2], p[1]))

EquidNode(q, n, i) ==       \* i-th of n
  CASE q = "GAUSS"       -> RSub(RQ(2 * i, n + 1), R1)
    [] q = "LOBATTO"     -> RSub(RQ(2 * (i - 1), n - 1), R1)
    [] q = "RADAU-RIGHT" -> RSub(RQ(2 * i, n), R1)
    [] q = "RADAU-LEFT"  -> RSub(RQ(2 * (i - 1), n), R1)

NodeTol(n) == Eps(1000 + 20 * n)
(* large counts: a sample of the nodes is located (boundaries included) *)
Sample(n) == IF n <= 130 THEN 1..n
             ELSE {i \in 1..n : i <= 6 \/ i > n - 6 \/ i % (n \div 24) = 0}
LocatedTol(f, q, x, d) ==
  LET n == Len(x) IN
  IF f = "EQUID" THEN \A i \in 1..n : Within(x[i], EquidNode(q, n, i), d)
  ELSE LET last == LastPair(f, q, n)
           sgn(y) == RSign(NodePoly(f, q, n, last, y))
       IN /\ \A i \in Sample(n) :
               \/ (i = 1 /\ HasLeft(q)) \/ (i = n /\ HasRight(q))
               \/ sgn(RSub(x[i], d)) * sgn(RAdd(x[i], d)) = -1
          /\ \A i \in 1..(n - 1) : RLt(RAdd(x[i], d), RSub(x[i + 1], d))

Located(f, q, x) == LocatedTol(f, q, x, NodeTol(Len(x)))

NodesNew(e) ==
  IF e.a.nt \in NodeTypes /\ e.a.qt \in QuadTypes
  THEN Must("C01.constructor", e.r.exc = "")
  ELSE Refused("C01.type-accepted", e, {"ValueError"})

GetNodes(o, e) ==
  LET f == o.a.nt q == o.a.qt n == e.a.n IN
  IF n < MinNodes(q) THEN Refused("C01.count-accepted", e, {"ValueError"})
  ELSE IF e.r.exc # "" THEN {"C01.raises"}
  ELSE IF ~IsVec(e.r.v, n) THEN {"C01.shape"}
  ELSE LET x == VecOf(e.r.v) IN Failing(<<
    <<"C01.increasing", \A i \in 1..(n - 1) : RLt(x[i], x[i + 1])>>,
    <<"C01.range", RLe(RI(-1), x[1]) /\ RLe(x[n], R1)>>,
    <<"C01.left-boundary", (x[1] = RI(-1)) <=> HasLeft(q)>>,
    <<"C01.right-boundary", (x[n] = R1) <=> HasRight(q)>>,
    <<"C01.position", Located(f, q, x)>> >>)

ROk(got, want, n) == Within(got, want, RMul(Eps(64 * (n + 8)), RMax(RAbs(want), RQ(1, 100))))
GetCoeffs(o, e) ==
  LET f == o.a.nt n == e.a.n IN
  IF e.r.exc # "" THEN {"C02.coeffs-raises"}
  ELSE IF ~IsVec(e.r.al, n) \/ ~IsVec(e.r.be, n) THEN {"C02.coeffs-shape"}
  ELSE LET al == VecOf(e.r.al) be == VecOf(e.r.be) IN Failing(<<
    <<"C02.alpha", \A k \in 1..n : ROk(al[k], AlphaC(f, k - 1), 1)>>,
    <<"C02.beta", \A k \in 2..n : ROk(be[k], BetaC(f, k - 1), 1)>>,
    <<"C02.mass", n >= 1 => ROk(be[1], Mass(f), 1)>> >>)
(* one request for very many coefficients: those at the recorded positions *)
GetCoeffsAt(o, e) ==
  LET f == o.a.nt IN
  IF e.r.exc # "" THEN {"C02.coeffs-raises"}
  ELSE IF e.r.sh # <<e.a.n, e.a.n>> THEN {"C02.coeffs-shape"}
  ELSE LET al == VecOf(e.r.al) be == VecOf(e.r.be) IN Failing(<<
    <<"C02.alpha", \A i \in 1..Len(e.a.at) : ROk(al[i], AlphaC(f, e.a.at[i]), 1)>>,
    <<"C02.beta", \A i \in 1..Len(e.a.at) : e.a.at[i] >= 1 => ROk(be[i], BetaC(f, e.a.at[i]), 1)>> >>)
GetTridiag(o, e) ==
  LET f == o.a.nt q == o.a.qt n == e.a.n IN
  IF e.r.exc # "" THEN {"C02.tridiag-raises"}
  ELSE IF ~IsVec(e.r.al, n) \/ ~IsVec(e.r.be, n) THEN {"C02.tridiag-shape"}
  ELSE LET al == VecOf(e.r.al) be == VecOf(e.r.be) last == LastPair(f, q, n) IN Failing(<<
    <<"C02.tridiag-alpha", \A k \in 1..(n - 1) : ROk(al[k], AlphaC(f, k - 1), 1)>>,
    <<"C02.tridiag-beta", \A k \in 2..(n - 1) : ROk(be[k], BetaC(f, k - 1), 1)>>,
    <<"C02.tridiag-mass", n >= 2 => ROk(be[1], Mass(f), 1)>>,
    <<"C02.tridiag-last", ROk(al[n], last[1], 16 * n) /\ ROk(be[n], last[2], 16 * n)>> >>)

(* arbitrary recurrence: values and a bound of the rounding errors *)
EvalPair(al, be, x) ==
  FoldLeft(LAMBDA a, k : <<a[2], RSub(RMul(RSub(x, al[k]), a[2]), RMul(be[k], a[1])),
                           a[4], RAdd(RMul(RAdd(RAbs(x), RAbs(al[k])), a[4]), RMul(RAbs(be[k]), a[3]))>>,
           <<R0, R1, R0, R1>>, [k \in 1..Len(al) |-> k])
EvalPoly(o, e) ==
  IF e.r.exc # "" THEN {"C02.eval-raises"}
  ELSE IF e.r.p0.sh # e.a.t.sh \/ e.r.p1.sh # e.a.t.sh THEN {"C02.eval-shape"}
  ELSE LET t == VecOf(e.a.t) al == VecOf(e.a.al) be == VecOf(e.a.be)
           p0 == VecOf(e.r.p0) p1 == VecOf(e.r.p1) k == Eps(64 * (Len(al) + 2))
       IN Must("C02.eval", \A m \in 1..Len(t) : LET w == EvalPair(al, be, t[m]) IN
            Within(p0[m], w[1], RMul(k, w[3])) /\ Within(p1[m], w[2], RMul(k, w[4])))
=============================================================================
