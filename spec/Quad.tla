-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* The Fejer rule and sparse (periodic) local interpolation.               *)
(***************************************************************************)
EXTENDS Lagrange

(* --------------------------- first Fejer rule --------------------------- *)
CosPi(a) == CExp(<<R0, RMul(a, Pi)>>)[1]           \* cos(a pi), |a| <= 1
FejerSample(n) == IF n <= 40 THEN 1..n ELSE {k \in 1..n : k <= 4 \/ k > n - 4 \/ k % (n \div 16) = 0}
(* moments of the Chebyshev polynomials: sum_j w_j T_k(x_j), k = 0..n-1     *)
ChebMoments(x, w) ==
  LET n == Len(x)
      step(a, k) ==            \* a = <<T_{k-1}, T_k, moments>>
        LET nt == Vn(n, LAMBDA j : RRound(RSub(RMul(R2, RMul(x[j], a[2][j])), a[1][j]), 120))
        IN <<a[2], nt, Append(a[3], RDot(w, a[2]))>>
      r == FoldLeft(step, <<x, Ones(n), <<>>>>, [k \in 1..n |-> k])
  IN r[3]
ChebIntegral(k) == IF k % 2 = 1 THEN R0 ELSE RQ(2, 1 - k * k)
Fejer(e) ==
  LET n == e.a.n IN
  IF e.r.exc # "" THEN {"C12.raises"}
  ELSE IF ~IsVec(e.r.x, n) \/ ~IsVec(e.r.w, n) THEN {"C12.shape"}
  ELSE LET x == VecOf(e.r.x) w == VecOf(e.r.w) t == Eps(32 * (n + 16)) IN Failing(<<
    <<"C12.increasing", \A k \in 1..(n - 1) : RLt(x[k], x[k + 1])>>,
    <<"C12.nodes", \A k \in FejerSample(n) : Within(x[k], CosPi(RQ(2 * (n - k) + 1, 2 * n)), Eps(128))>>,
    <<"C12.positive", \A k \in 1..n : RSign(w[k]) = 1>>,
    <<"C12.symmetric", \A k \in 1..n : Within(w[k], w[n + 1 - k], Eps(128)) /\ Within(x[k], RNeg(x[n + 1 - k]), Eps(128))>>,
    <<"C12.sum", Within(RSum(w), R2, Eps(16 * (n + 8)))>>,
    <<"C12.exact", n > 300 \/ LET m == ChebMoments(x, w) IN \A k \in 1..n : Within(m[k], ChebIntegral(k - 1), t)>> >>)

(* very many points: the moments for the recorded degrees are summed at the  *)
(* angles of the nodes, the nodes and weights are recorded at some positions *)
ChebIntegralBig(k) == IF k % 2 = 1 THEN R0 ELSE RDiv(R2, RSub(R1, RMul(RI(k), RI(k))))
FejerMany(e) ==
  LET n == e.a.n IN
  IF e.r.exc # "" THEN {"C12.raises"}
  ELSE IF e.r.sh # <<n, n>> THEN {"C12.shape"}
  ELSE LET x == VecOf(e.r.x) m == VecOf(e.r.m) IN Failing(<<
    <<"C12.increasing", e.r.increasing>>,
    <<"C12.positive", e.r.positive>>,
    <<"C12.symmetric", RLe(VecOf(e.r.asym)[1], Eps(128))>>,
    <<"C12.nodes", \A i \in 1..Len(e.a.at) : Within(x[i], CosPi(RDiv(RI(2 * (n - e.a.at[i]) - 1), RI(2 * n))), Eps(128))>>,
    <<"C12.exact", \A i \in 1..Len(e.a.deg) : Within(m[i], ChebIntegralBig(e.a.deg[i]), Eps(64))>> >>)

(* --------------------------- sparse interpolation ------------------------ *)
(* distance vectors of the candidate points seen from an output point:       *)
(* <<input index, position relative to the output point>>                    *)
Wrapped(t, period) == RSub(t, RMul(period, RFloor(RDiv(t, period))))
Candidates(xin, t, period) ==
  LET n == Len(xin) IN
  IF RSign(period) <= 0 THEN [k \in 1..n |-> <<k, RSub(xin[k], t)>>]
  ELSE LET c == RAdd(xin[1], Wrapped(RSub(t, xin[1]), period))      \* within one period of the grid, wherever it is
       IN [k \in 1..(3 * n) |-> LET i == ((k - 1) \div 3) + 1 s == ((k - 1) % 3) - 1
             IN <<i, RSub(RAdd(xin[i], RMul(RI(s), period)), c)>>]
(* all stencils of p closest points, ties (within d) in any way *)
Stencils(cand, p, d) ==
  LET srt == SortSeq(cand, LAMBDA a, b : RLt(RAbs(a[2]), RAbs(b[2])))
      lim == RAbs(srt[p][2])
      sure == SelectSeq(srt, LAMBDA c : RLt(RAbs(c[2]), RSub(lim, d)))
      tied == SelectSeq(srt, LAMBDA c : Within(RAbs(c[2]), lim, d))
      need == p - Len(sure)
  IN {sure \o SetToSeq({tied[i] : i \in S}) : S \in {T \in SUBSET (1..Len(tied)) : Cardinality(T) = need}}
DistinctIdx(st) == \A i, j \in 1..Len(st) : i # j => st[i][1] # st[j][1]
(* relative positions are rounded (d) and lines reused up to 1e-13 of the span *)
RowMatches(row, st, n, d) ==
  LET p == Len(st)
      x == [k \in 1..p |-> st[k][2]]
      w == BaryWeights(x)
      l == BasisAt(x, w, R0)
      lam2 == RMul(Lebesgue(l), Lebesgue(l))
      shift == IF p = 1 THEN R0 ELSE RAdd(d, RMul(Eps(1024), Span(x)))
      tol == RAdd(InterpTol(p, l), IF p = 1 THEN R0 ELSE RMul(RMul(RI(4 * p), RDiv(shift, MinGap(x))), lam2))
      used == {st[k][1] : k \in 1..p}
  IN /\ \A i \in (1..n) \ used : RSign(row[i]) = 0
     /\ \A k \in 1..p : Within(row[st[k][1]], l[k], tol)
(* a grid that covers the whole period: its last point is the image of the   *)
(* first one, so there are n - 1 points, and the entries of the two add up    *)
Covers(xin, per, d) == Len(xin) > 1 /\ RSign(per) > 0 /\ Within(RSub(xin[Len(xin)], xin[1]), per, d)
FoldRow(row) == [i \in 1..(Len(row) - 1) |-> IF i = 1 THEN RAdd(row[1], row[Len(row)]) ELSE row[i]]
Sparse(e) ==
  LET xin == VecOf(e.a.xin) xout == VecOf(e.a.xout) p == e.a.p per == Scalar(e.a.period)
      n == Len(xin)
      d == RMul(Eps(8), RMax(RMaxAbs(xin), RMax(RMaxAbs(xout), RAbs(per))))
      covers == Covers(xin, per, d)
      pts == IF covers THEN SubSeq(xin, 1, n - 1) ELSE xin
  IN IF p > n THEN Must("C13.order-accepted", e.r.exc # "")
     ELSE IF e.r.exc # "" THEN {"C13.raises"}
     ELSE IF ~IsMat(e.r.v, Len(xout), n) THEN {"C13.shape"}
     ELSE LET A == MatOf(e.r.v)
          IN Must("C13.row", \A m \in 1..Len(xout) :
               \E st \in Stencils(Candidates(pts, xout[m], per), IF p > Len(pts) THEN Len(pts) ELSE p, d) :
                  DistinctIdx(st) /\ RowMatches(IF covers THEN FoldRow(A[m]) ELSE A[m], st, Len(pts), d))
=============================================================================
