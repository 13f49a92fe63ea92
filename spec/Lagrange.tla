------------------------------ MODULE Lagrange ------------------------------
(***************************************************************************)
(* Lagrange interpolation on a sequence x of distinct rationals, and the   *)
(* verdicts on recorded calls of qmat.lagrange.LagrangeApproximation.      *)
(***************************************************************************)
EXTENDS Rec

Bits == 400
(* product of a sequence of non-zero factors, relative error < 2^-380      *)
Prod(s) == FoldLeft(LAMBDA a, f : RRound(RMul(a, f), Bits), R1, s)
Others(n, j) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k # j)

(* w_j = 1 / prod_{k # j} (x_j - x_k) *)
BaryWeights(x) ==
  Vn(Len(x), LAMBDA j : RRound(RDiv(R1,
     Prod([k \in 1..Len(x) |-> IF k = j THEN R1 ELSE RSub(x[j], x[k])])), Bits))

(* values of the basis polynomials at t, w = BaryWeights(x) *)
BasisAt(x, w, t) ==
  LET n == Len(x)
      hit == {j \in 1..n : x[j] = t}
  IN IF hit # {} THEN Vn(n, LAMBDA j : IF j \in hit THEN R1 ELSE R0)
     ELSE LET om == Prod([k \in 1..n |-> RSub(t, x[k])])
          IN Vn(n, LAMBDA j : RRound(RDiv(RMul(om, w[j]), RSub(t, x[j])), Bits))
(* the same from the definition, without barycentric weights *)
BasisAtDef(x, t) ==
  Vn(Len(x), LAMBDA j : RProd([k \in 1..Len(x) |->
     IF k = j THEN R1 ELSE RDiv(RSub(t, x[k]), RSub(x[j], x[k]))]))

(* basis polynomials as exact coefficient sequences *)
BasisPolys(x) ==
  LET n == Len(x)
      om == PolyFromRoots(x)
  IN Vn(n, LAMBDA j :
       LET q == PolyDivRoot(om, x[j])
       IN VScale(RDiv(R1, RPolyEval(q, x[j])), q))
(* integrals over [a, b], from the primitives of the basis polynomials *)
BasisInt(prims, a, b) == Vn(Len(prims), LAMBDA j :
   RRound(RSub(RPolyEval(prims[j], b), RPolyEval(prims[j], a)), Bits))
Prims(polys) == Vn(Len(polys), LAMBDA j : PolyPrim(polys[j]))
BasisD(dpolys, x) == Mn(Len(x), Len(dpolys), LAMBDA i, j : RRound(RPolyEval(dpolys[j], x[i]), Bits))

Lebesgue(row) == VAbsSum(row)
Span(x) == RSub(FoldLeft(LAMBDA a, b : RMax(a, b), x[1], x), FoldLeft(LAMBDA a, b : RMin(a, b), x[1], x))
MinGap(x) == FoldLeft(LAMBDA a, p : RMin(a, p), RAbs(RSub(x[1], x[2])),
   [k \in 1..(Len(x) * Len(x)) |-> LET i == ((k - 1) \div Len(x)) + 1 j == ((k - 1) % Len(x)) + 1
       IN IF i = j THEN RAbs(RSub(x[1], x[2])) ELSE RAbs(RSub(x[i], x[j]))])

(* ------------------------------ points --------------------------------- *)
IsDup(p) == \E i, j \in 1..Len(p) : i < j /\ p[i] = p[j]
Sorted(p) == SortSeq(p, LAMBDA a, b : RLt(a, b))
Uniques(p) ==
  LET s == TLCEval(Sorted(p))
  IN FoldLeft(LAMBDA acc, v : IF acc # <<>> /\ acc[Len(acc)] = v THEN acc ELSE Append(acc, v), <<>>, s)
(* the points the matrices are built on *)
XPoints(p) == IF IsDup(p) THEN Uniques(p) ELSE p
(* column of the full matrix carrying the coefficient of unique point k *)
Column(p, x, k, strategy) ==
  LET occ == {i \in 1..Len(p) : p[i] = x[k]}
  IN CHOOSE i \in occ : \A m \in occ : IF strategy = "USE_RIGHT" THEN i >= m ELSE i <= m
(* spread a row over the columns of the given points *)
Spread(p, x, strategy, row) ==
  IF ~IsDup(p) THEN row ELSE
  LET col == [k \in 1..Len(x) |-> Column(p, x, k, strategy)]
  IN Vn(Len(p), LAMBDA i : IF \E k \in 1..Len(x) : col[k] = i
                           THEN row[CHOOSE k \in 1..Len(x) : col[k] = i] ELSE R0)

(* ------------------------------ weights -------------------------------- *)
(* "proportional with a positive factor, normalised as documented"         *)
WeightTol(n) == Eps(4096 * (n + 8))
Proportional(v, w, n) ==         \* v = c w, c > 0, relative error per entry
  /\ \A j \in 1..n : RSign(v[j]) = RSign(w[j])
  /\ \A j \in 2..n : LET c1 == RDiv(v[1], w[1]) cj == RDiv(v[j], w[j])
                     IN Within(cj, c1, RMul(WeightTol(n), c1))
ClosestToZero(x) ==
  CHOOSE j \in 1..Len(x) : \A k \in 1..Len(x) : RLe(RAbs(x[j]), RAbs(x[k]))
TieZero(x) == \E j, k \in 1..Len(x) : j # k /\ RAbs(x[j]) = RAbs(x[k])
                 /\ \A m \in 1..Len(x) : RLe(RAbs(x[j]), RAbs(x[m]))
WeightsOk(alg, scaled, ref, x, v) ==
  LET n == Len(x)
      w == BaryWeights(x)
      mx == RMaxAbs(v)
      unit(y) == Within(y, R1, WeightTol(n))
  IN /\ Proportional(v, w, n)
     /\ CASE scaled -> unit(mx)
          [] ~scaled /\ alg = "FAST" -> Within(RDiv(v[1], w[1]), R1, WeightTol(n))
          [] ~scaled /\ (alg = "CHEBFUN" \/ (alg = "STABLE" /\ ref = "MAX")) -> unit(mx)
          [] ~scaled /\ alg = "STABLE" /\ ref = "ZERO" ->
               (IF TieZero(x) THEN \E j \in 1..n : unit(RAbs(v[j])) ELSE unit(RAbs(v[ClosestToZero(x)])))
          [] OTHER -> TRUE

Algs == {"AUTO", "FAST", "STABLE", "CHEBFUN"}
LagValid(a) ==
  /\ a.alg \in Algs
  /\ (a.alg = "STABLE" => a.ref \in {"MAX", "ZERO"})
  /\ (IsDup(VecOf(a.pts)) => a.dup \in {"USE_LEFT", "USE_RIGHT"})
  /\ (a.fv.sh # <<-1>> => a.fv.sh = a.pts.sh)
LagNew(e) ==
  LET a == e.a r == e.r
      p == VecOf(a.pts)
      x == XPoints(p)
  IN IF a.fv.sh # <<-1>> /\ a.fv.sh # a.pts.sh THEN Refused("C07.fvalues-shape-accepted", e, {"ValueError"})
     ELSE IF IsDup(p) /\ a.dup \notin {"USE_LEFT", "USE_RIGHT"} THEN Refused("C10.strategy-accepted", e, {"NotImplementedError"})
     ELSE IF ~LagValid(a) THEN Refused("C11.algorithm-accepted", e, {"NotImplementedError"})
     ELSE IF r.exc # "" THEN {"C11.raises"}
     ELSE Failing(<<
       <<"C10.points", VecOf(r.pts) = p>>,
       <<"C10.counts", r.nPoints = Len(p) /\ r.nUnique = Len(x) /\ r.n = Len(p) /\ r.hasDup = IsDup(p)>>,
       <<"C10.unique-points", VecOf(r.upts) = x>>,
       <<"C11.shape", IsVec(r.w, Len(x))>>,
       <<"C11.weights", IsVec(r.w, Len(x)) /\ WeightsOk(a.alg, a.scaled, a.ref, x, VecOf(r.w))>> >>)

(* ------------------------------ matrices ------------------------------- *)
RowsOk(p, x, strategy, dup, got, rows, tols) ==
  \A m \in 1..Len(rows) :
    LET want == IF dup THEN Spread(p, x, strategy, rows[m]) ELSE rows[m]
    IN VWithin(got[m], want, tols[m])
NCols(p, x, dup) == IF dup THEN Len(p) ELSE Len(x)
(* zero columns of ignored duplicates have to be exactly zero *)
ZeroCols(p, x, strategy, dup, got) ==
  (dup /\ IsDup(p)) =>
    LET used == {Column(p, x, k, strategy) : k \in 1..Len(x)}
    IN \A m \in 1..Len(got) : \A i \in (1..Len(p)) \ used : RSign(got[m][i]) = 0
DupTag(p, tag) == IF IsDup(p) THEN "C10." \o tag ELSE tag

(* the ratio of weights in double arithmetic has relative error ~ n eps (n log for STABLE) *)
(* without any digit left the denominator may even vanish: nothing is asked for *)
CondTol(n, lam) == LET c == RMul(Eps(4096 * (n + 4)), lam)
                   IN IF RLe(R1, c) THEN RPow(R2, 6000) ELSE RMul(c, lam)
InterpTol(n, row) == CondTol(n, Lebesgue(row))
Interp(o, e) ==
  LET p == VecOf(o.a.pts) x == XPoints(p) w == BaryWeights(x) n == Len(x)
      t == VecOf(e.a.t) dup == e.a.dup
      pre == IF IsDup(p) THEN "C10" ELSE IF "pre" \in DOMAIN e.a THEN e.a.pre ELSE "C07"
  IN IF e.r.exc # "" THEN {pre \o ".interp-raises"}
     ELSE IF ~IsMat(e.r.v, Len(t), NCols(p, x, dup)) THEN {pre \o ".interp-shape"}
     ELSE LET got == MatOf(e.r.v)
              rows == Vn(Len(t), LAMBDA m : BasisAt(x, w, t[m]))
              tols == Vn(Len(t), LAMBDA m : InterpTol(n, rows[m]))
          IN Failing(<<
               <<pre \o ".interp", RowsOk(p, x, o.a.dup, dup, got, rows, tols)>>,
               <<pre \o ".interp-zero-columns", ZeroCols(p, x, o.a.dup, dup, got)>>,
               <<pre \o ".interp-at-point", \A m \in 1..Len(t) : (\E j \in 1..n : x[j] = t[m]) =>
                    got[m] = (IF dup THEN Spread(p, x, o.a.dup, rows[m]) ELSE rows[m])>> >>)

LebesgueOn(x, w, a, b) ==
  LET n == 2 * Len(x) + 1
  IN RMaxAbs(Vn(n, LAMBDA k : Lebesgue(BasisAt(x, w, RAdd(a, RMul(RQ(k - 1, n - 1), RSub(b, a)))))))
IntegTol(x, w, a, b) ==
  LET n == Len(x)
      lam == LebesgueOn(x, w, a, b)
      big == RMax(RMaxAbs(x), RMax(RAbs(a), RAbs(b)))
      span == RMax(IF n = 1 THEN RMax(big, R1) ELSE Span(x), RAbs(RSub(b, a)))
  IN IF RLe(R1, RMul(Eps(4096 * (n + 4)), lam)) THEN RPow(R2, 6000) ELSE
     RMul(RMul(Eps(1024), RMul(lam, lam)),
          RMul(RAbs(RSub(b, a)), RAdd(RI(n + 4), RMax(RMul(RI(n * n), RDiv(big, span)),
                                       \* the abscissae of the rule are rounded, the basis varies between neighbours
                                       IF n = 1 THEN R0 ELSE RDiv(big, MinGap(x))))))
Rules == {"LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"}
Integ(o, e) ==
  LET p == VecOf(o.a.pts) x == XPoints(p) w == BaryWeights(x) n == Len(x)
      iv == MatOf(e.a.iv) dup == e.a.dup
      pre == IF IsDup(p) THEN "C10" ELSE IF "pre" \in DOMAIN e.a THEN e.a.pre ELSE "C08"
  IN IF e.a.rule \notin Rules THEN Refused("C08.rule-accepted", e, {"NotImplementedError"})
     ELSE IF e.r.exc # "" THEN {pre \o ".integ-raises"}
     ELSE IF ~IsMat(e.r.v, Len(iv), NCols(p, x, dup)) THEN {pre \o ".integ-shape"}
     ELSE LET got == MatOf(e.r.v)
              pr == Prims(BasisPolys(x))
              rows == Vn(Len(iv), LAMBDA m : BasisInt(pr, iv[m][1], iv[m][2]))
              tols == Vn(Len(iv), LAMBDA m : IntegTol(x, w, iv[m][1], iv[m][2]))
          IN Failing(<<
               <<pre \o ".integ", RowsOk(p, x, o.a.dup, dup, got, rows, tols)>>,
               <<pre \o ".integ-zero-columns", ZeroCols(p, x, o.a.dup, dup, got)>>,
               <<pre \o ".integ-empty", \A m \in 1..Len(iv) : iv[m][1] = iv[m][2] => RSign(RMaxAbs(got[m])) = 0>> >>)

DerivScale(x, w, i) ==       \* sum of |w_k / w_i / (x_i - x_k)|
  RSum([k \in 1..Len(x) |-> IF k = i THEN R0 ELSE RAbs(RRound(RDiv(w[k], RMul(w[i], RSub(x[i], x[k]))), 100))])
GapInv(x, i) == FoldLeft(LAMBDA a, k : IF k = i THEN a ELSE RMax(a, RAbs(RRound(RDiv(R1, RSub(x[i], x[k])), 100))), R0,
                         [k \in 1..Len(x) |-> k])
Deriv(o, e) ==
  LET p == VecOf(o.a.pts) x == XPoints(p) w == BaryWeights(x) n == Len(x)
      dup == e.a.dup ord == e.a.order
      pre == IF IsDup(p) THEN "C10" ELSE IF "pre" \in DOMAIN e.a THEN e.a.pre ELSE "C09"
      nm == IF ord = "ALL" THEN 2 ELSE 1
  IN IF ord \notin {"1", "2", "ALL"} THEN Refused("C09.order-accepted", e, {"NotImplementedError"})
     ELSE IF e.r.exc # "" THEN {pre \o ".deriv-raises"}
     ELSE IF Len(e.r.v) # nm \/ \E k \in 1..Len(e.r.v) : ~IsMat(e.r.v[k], n, NCols(p, x, dup)) THEN {pre \o ".deriv-shape"}
     ELSE LET polys == BasisPolys(x)
              d1 == Vn(n, LAMBDA j : PolyDeriv(polys[j]))
              d2 == Vn(n, LAMBDA j : PolyDeriv(d1[j]))
              sc == Vn(n, LAMBDA i : DerivScale(x, w, i))
              tol1 == Vn(n, LAMBDA i : RMul(Eps(4096 * (n + 4)), sc[i]))
              tol2 == Vn(n, LAMBDA i : RMul(Eps(8192 * (n + 4)), RMul(sc[i], RAdd(sc[i], GapInv(x, i)))))
              g1 == MatOf(e.r.v[1])
              g2 == MatOf(e.r.v[nm])
              ok1 == RowsOk(p, x, o.a.dup, dup, g1, BasisD(d1, x), tol1)
              ok2 == RowsOk(p, x, o.a.dup, dup, g2, BasisD(d2, x), tol2)
              zs(g, tol) == \A m \in 1..n : RLe(RAbs(RSum(g[m])), tol[m])
          IN Failing(<<
               <<pre \o ".deriv-1", ord = "2" \/ ok1>>,
               <<pre \o ".deriv-2", ord = "1" \/ ok2>>,
               <<pre \o ".deriv-row-sums", (ord = "2" \/ zs(g1, tol1)) /\ (ord = "1" \/ zs(g2, tol2))>>,
               <<"C09.deprecation", e.a.old = e.r.warned>>,
               <<pre \o ".deriv-zero-columns", ZeroCols(p, x, o.a.dup, dup, g1) /\ ZeroCols(p, x, o.a.dup, dup, g2)>> >>)

(* evaluation as a function: values of the argument's shape *)
Call(o, e) ==
  LET p == VecOf(o.a.pts) x == XPoints(p) w == BaryWeights(x) n == Len(x)
      given == e.a.fv.sh # <<-1>>
      stored == o.a.fv.sh # <<-1>>
      t == VecOf(e.a.t)
      f == IF given THEN VecOf(e.a.fv) ELSE VecOf(o.a.fv)
  IN IF ~given /\ ~stored THEN Must("C07.call-without-values", e.r.exc = "AssertionError")
     ELSE IF Len(f) # Len(p) THEN Must("C07.call-wrong-size", e.r.exc # "")
     ELSE IF e.r.exc # "" THEN {"C07.call-raises"}
     ELSE IF e.r.v.sh # e.a.t.sh THEN {"C07.call-shape"}
     ELSE LET got == VecOf(e.r.v)
              rows == Vn(Len(t), LAMBDA m : BasisAt(x, w, t[m]))
          IN Must("C07.call", \A m \in 1..Len(t) :
               Within(got[m], RDot(Spread(p, x, o.a.dup, rows[m]), f),
                      RMul(RMul(RI(n), RMaxAbs(f)), InterpTol(n, rows[m]))))
(* --------------------------- hundreds of points ----------------------------
   The same requirements for point sets too large for whole matrices: weights
   in sampled positions, rows in sampled rows and columns.  Rows are asked for
   points whose Lebesgue constant is below 8 (Chebyshev points).            *)
WeightAt(x, j) == RRound(RDiv(R1,
     Prod([k \in 1..Len(x) |-> IF k = j THEN R1 ELSE RSub(x[j], x[k])])), Bits)
(* doubles below this are not normal: their relative error is not bounded *)
Denormal == RPow(R2, -1020)
LargeTol(n) == Eps(1024 * (n + 8))
LargeWeights(e) ==
  LET x == VecOf(e.a.pts) n == Len(x) IN
  IF e.r.exc # "" THEN {"C11.raises"}
  ELSE IF ~IsVec(e.r.w, n) THEN {"C11.shape"}
  ELSE LET v == VecOf(e.r.w)
           mx == RMaxAbs(v)
           js == e.a.js
           top == CHOOSE j \in 1..n : RAbs(v[j]) = mx
           wt == WeightAt(x, top)
           c == RDiv(v[top], wt)
           want == [k \in 1..Len(js) |-> RMul(c, WeightAt(x, js[k]))]
       IN Failing(<<
            <<"C11.weights", RSign(mx) = 1 /\ RSign(c) = 1 /\ \A k \in 1..Len(js) :
                 Within(v[js[k]], want[k], RMax(RMul(LargeTol(n), RAbs(want[k])), RMul(RMax(R1, mx), Denormal)))>>,
            <<"C11.largest", e.a.scaled \/ e.a.alg \in {"STABLE", "CHEBFUN"} => Within(mx, R1, WeightTol(n))>> >>)

(* rows of the interpolation matrix, given in full, at times t *)
LargeInterp(e) ==
  LET x == VecOf(e.a.pts) n == Len(x) t == VecOf(e.a.t) m == Len(t) js == e.a.js IN
  IF e.r.exc # "" THEN {"C07.raises"}
  ELSE IF ~IsMat(e.r.v, m, n) THEN {"C07.shape"}
  ELSE LET P == MatOf(e.r.v)
           ws == TLCEval([k \in 1..Len(js) |-> WeightAt(x, js[k])])
           tol == RMul(RI(8), LargeTol(n))
           entry(i, k) == IF \E j \in 1..n : x[j] = t[i] THEN (IF x[js[k]] = t[i] THEN R1 ELSE R0)
              ELSE RDiv(RMul(Prod([j \in 1..n |-> RSub(t[i], x[j])]), ws[k]), RSub(t[i], x[js[k]]))
       IN Failing(<<
            <<"C07.interp", \A i \in 1..m : \A k \in 1..Len(js) : Within(P[i][js[k]], entry(i, k), tol)>>,
            <<"C07.sum", \A i \in 1..m : Within(RSum(P[i]), R1, tol)>>,
            <<"C07.linear", \A i \in 1..m : Within(RDot(P[i], x), t[i], RMul(tol, RMaxAbs(x)))>> >>)

(* rows is of both derivative matrices, given in full *)
LargeDeriv(e) ==
  LET x == VecOf(e.a.pts) n == Len(x) is == e.a.is js == e.a.js IN
  IF e.r.exc # "" THEN {"C09.raises"}
  ELSE IF ~IsMat(e.r.v1, Len(is), n) \/ ~IsMat(e.r.v2, Len(is), n) THEN {"C09.shape"}
  ELSE LET A == MatOf(e.r.v1) B == MatOf(e.r.v2)
           wi == TLCEval([k \in 1..Len(is) |-> WeightAt(x, is[k])])
           wj == TLCEval([k \in 1..Len(js) |-> WeightAt(x, js[k])])
           tol == LargeTol(n)
           inv(k) == TLCEval([j \in 1..n |-> IF j = is[k] THEN R0 ELSE RRound(RDiv(R1, RSub(x[is[k]], x[j])), Bits)])
           row(k) ==
             LET i == is[k] v == inv(k)
                 d == RSum(v)
                 s2 == RSub(RMul(d, d), RSum([j \in 1..n |-> RMul(v[j], v[j])]))
                 abs1 == VAbsSum([j \in 1..n |-> IF j = i THEN R0 ELSE A[k][j]])
                 abs2 == VAbsSum([j \in 1..n |-> IF j = i THEN R0 ELSE B[k][j]])
                 off(q) == LET j == js[q]
                               d1 == RMul(RDiv(wj[q], wi[k]), v[j])
                               d2 == RMul(RMul(R2, d1), RSub(d, v[j]))
                           IN j = i \/ (/\ Within(A[k][j], d1, RMul(tol, RAbs(d1)))
                                       /\ Within(B[k][j], d2, RMul(RMul(R2, tol), RMul(RAbs(d1), RAdd(abs1, RAbs(v[j]))))))
             IN /\ Within(A[k][i], d, RMul(tol, abs1))
                /\ Within(B[k][i], s2, RMul(tol, RAdd(abs2, RMul(abs1, abs1))))
                /\ \A q \in 1..Len(js) : off(q)
       IN Must("C09.large", \A k \in 1..Len(is) : row(k))

(* Chebyshev polynomials T_0 .. T_m at y *)
ChebVals(y, m) ==
  FoldLeft(LAMBDA acc, k : IF k = 0 THEN <<R1>> ELSE IF k = 1 THEN Append(acc, y)
             ELSE Append(acc, RRound(RSub(RMul(RMul(R2, y), acc[k]), acc[k - 1]), Bits)),
           <<>>, [i \in 1..(m + 1) |-> i - 1])
(* rows of the integration matrix, on the polynomials of degree below n; the points lie in [lo, hi] *)
LargeInteg(e) ==
  LET x == VecOf(e.a.pts) n == Len(x) lo == Scalar(e.a.lo) hi == Scalar(e.a.hi)
      iv == MatOf(e.a.iv) m == Len(iv)
      len == RSub(hi, lo)
      unit(t) == RSub(RDiv(RMul(R2, RSub(t, lo)), len), R1) IN
  IF e.r.exc # "" THEN {"C08.raises"}
  ELSE IF ~IsMat(e.r.v, m, n) THEN {"C08.shape"}
  ELSE LET Q == MatOf(e.r.v)
           T == TLCEval([j \in 1..n |-> ChebVals(unit(x[j]), n - 1)])
           E == TLCEval([i \in 1..m |-> <<ChebVals(unit(iv[i][1]), n), ChebVals(unit(iv[i][2]), n)>>])
           prim(V, k) == IF k = 0 THEN V[2] ELSE IF k = 1 THEN RDiv(V[3], RI(4))
                         ELSE RSub(RDiv(V[k + 2], RI(2 * (k + 1))), RDiv(V[k], RI(2 * (k - 1))))
           want(i, k) == RMul(RDiv(len, R2), RSub(prim(E[i][2], k), prim(E[i][1], k)))
           tol(i) == RMul(RMul(RI(8), LargeTol(n)), RAbs(RSub(iv[i][2], iv[i][1])))
       IN Must("C08.integ", \A i \in 1..m : \A k \in 0..(n - 1) :
            Within(RDot(Q[i], Vn(n, LAMBDA j : T[j][k + 1])), want(i, k), tol(i)))
=============================================================================
