--------------------------------- MODULE Num ----------------------------------
(***************************************************************************)
(* Utility functions: LDU factorization, extrapolation by least squares,   *)
(* slope of the log-log regression.                                        *)
(***************************************************************************)
EXTENDS QDelta

(* complex matrices as real ones of twice the size, [[Re, -Im], [Im, Re]]          *)
ReMat(a) == MatOf(a)
ImMat(a) == IF a.ty = "c" THEN MatOf([a EXCEPT !.d = a.i]) ELSE MMap(MatOf(a), LAMBDA x : R0)
CBlock(R, I) == LET n == Len(R) IN Mn(2 * n, 2 * n, LAMBDA i, j :
  IF i <= n THEN (IF j <= n THEN R[i][j] ELSE RNeg(I[i][j - n])) ELSE (IF j <= n THEN I[i - n][j] ELSE R[i - n][j - n]))
Leading(R, k) == Mn(k, k, LAMBDA i, j : R[i][j])
LduComplex(e) ==
  LET r == e.r A == e.a.A n == A.sh[1] M == CBlock(ReMat(A), ImMat(A)) IN
  IF \E k \in 1..(n - 1) : MSolve(CBlock(Leading(ReMat(A), k), Leading(ImMat(A), k)), MId(2 * k)) = <<>> THEN {}
  ELSE IF r.exc # "" THEN {"C30.raises"}
  ELSE IF ~(IsMat(r.L, n, n) /\ IsMat(r.D, n, n) /\ IsMat(r.U, n, n)) THEN {"C30.shape"}
  ELSE LET a(x, i, j) == RAdd(RAbs(ReMat(x)[i][j]), RAbs(ImMat(x)[i][j]))
           full(x) == CBlock(ReMat(x), ImMat(x))
           size(x) == Mn(n, n, LAMBDA i, j : a(x, i, j))
           is(x, i, j, v) == ReMat(x)[i][j] = v /\ ImMat(x)[i][j] = R0
           P == RMatMul(RMatMul(full(r.L), full(r.D)), full(r.U))
           G == RMatMul(RMatMul(size(r.L), size(r.D)), size(r.U))
       IN Failing(<<
         <<"C30.unit-lower", \A i, j \in 1..n : (j > i => is(r.L, i, j, R0)) /\ (i = j => is(r.L, i, j, R1))>>,
         <<"C30.diagonal", \A i, j \in 1..n : i # j => is(r.D, i, j, R0)>>,
         <<"C30.unit-upper", \A i, j \in 1..n : (j < i => is(r.U, i, j, R0)) /\ (i = j => is(r.U, i, j, R1))>>,
         <<"C30.product", \A i \in 1..(2 * n), j \in 1..n : Within(P[i][j], M[i][j],
              RMul(Eps(128 * n), RAdd(G[IF i > n THEN i - n ELSE i][j], a(A, IF i > n THEN i - n ELSE i, j))))>> >>)

(* -------------------------------- LDU ------------------------------------------ *)
Ldu(e) ==
  LET r == e.r A == e.a.A IN
  IF Len(A.sh) # 2 \/ A.sh[1] # A.sh[2] THEN Must("C30.not-square", r.exc # "")
  ELSE IF A.ty = "c" THEN LduComplex(e)
  ELSE LET n == A.sh[1] M == MatOf(A) PF == PivotFree(M) IN
  IF ~PF[5] THEN {}                                    \* a vanishing leading minor
  ELSE IF r.exc # "" THEN {"C30.raises"}
  ELSE IF ~(IsMat(r.L, n, n) /\ IsMat(r.D, n, n) /\ IsMat(r.U, n, n)) THEN {"C30.shape"}
  ELSE LET L == MatOf(r.L) D == MatOf(r.D) U == MatOf(r.U)
           a(X) == MMap(X, RAbs)
           P == RMatMul(RMatMul(L, D), U)
           G == RMatMul(RMatMul(a(L), a(D)), a(U))           \* growth of the factors
       IN Failing(<<
         <<"C30.unit-lower", \A i, j \in 1..n : (j > i => RSign(L[i][j]) = 0) /\ (i = j => L[i][j] = R1)>>,
         <<"C30.diagonal", \A i, j \in 1..n : i # j => RSign(D[i][j]) = 0>>,
         <<"C30.unit-upper", \A i, j \in 1..n : (j < i => RSign(U[i][j]) = 0) /\ (i = j => U[i][j] = R1)>>,
         <<"C30.product", \A i, j \in 1..n : Within(P[i][j], M[i][j], RMul(Eps(32 * n), RAdd(G[i][j], RAbs(M[i][j]))))>>,
         <<"C30.type", r.L.ty = "f" /\ r.D.ty = "f" /\ r.U.ty = "f">> >>)

(* --------------------------- least squares ------------------------------------- *)
Vander(x, p) == Mn(Len(x), p + 1, LAMBDA i, j : RPow(x[i], j - 1))
Extrapolation(e) ==
  LET r == e.r a == e.a IN
  IF r.exc # "" THEN {"C31.raises"}
  ELSE LET x0 == VecOf(a.nodes) t0 == VecOf(a.times) n == Len(x0)
           \* the matrix does not depend on the unit of time: the largest node is the unit
           m == IF n = 1 \/ RSign(RMaxAbs(x0)) = 0 THEN R1 ELSE RMaxAbs(x0)
           x == VScale(RDiv(R1, m), x0) t == VScale(RDiv(R1, m), t0)
           p == IF a.degree < 0 THEN n - 1 ELSE a.degree IN
  IF ~IsMat(r.P, Len(t), n) THEN {"C31.shape"}
  ELSE LET X == Vander(x, p) XT == MTrans(X) G == RMatMul(XT, X)
           inv == MSolveBits(G, MId(p + 1), 400)
           coef == MSolveBits(G, XT, 400)
           T == Vander(t, p)
           want == RMatMul(T, coef)
           got == MatOf(r.P)
           \* the normal equations are solved in floating point
           cond == RMul(MNorm(G), MNorm(inv))
           tol(i) == RMul(Eps(64 * (p + 1)), RMul(RMul(VAbsSum(T[i]), RMul(RI(n), MMaxAbs(coef))), cond))
       IN IF RLt(RPow(RI(10), 13), cond) THEN {}
          ELSE Must("C31.least-squares", \A i \in 1..Len(t) : VWithin(got[i], want[i], tol(i)))

(* ---------------------- order by log-log regression ---------------------------- *)
NumOrder(e) ==
  LET r == e.r a == e.a IN
  IF r.exc # "" THEN {"C32.raises"}
  ELSE IF r.beta.sh # <<>> \/ r.rmse.sh # <<>> THEN {"C32.shape"}
  ELSE LET N == VecOf(a.n) er == VecOf(a.err) k == Len(N)
           ln10 == RLn(RI(10))
           lg(v) == RDiv(RLn(v), ln10)
           x == Vn(k, LAMBDA i : RRound(RNeg(lg(N[i])), 250)) y == Vn(k, LAMBDA i : RRound(lg(er[i]), 250))
           xm == RDiv(RSum(x), RI(k)) ym == RDiv(RSum(y), RI(k))
           dx == Vn(k, LAMBDA i : RSub(x[i], xm)) dy == Vn(k, LAMBDA i : RSub(y[i], ym))
           sx == RDot(dx, dx)
       IN IF RSign(sx) = 0 THEN {}
          ELSE LET beta == RDiv(RDot(dx, dy), sx)
                   dev2 == RDiv(RSum(Vn(k, LAMBDA i : LET d == RSub(dy[i], RMul(beta, dx[i])) IN RMul(d, d))), RI(k))
                   dev == RSqrtFloor(dev2, 200)
                   s == RSqrtFloor(sx, 200)
                   \* rounding of the logarithms and of the sums
                   ly == RAdd(R1, RMul(RI(k), RMaxAbs(y))) lx == RAdd(R1, RMul(RI(k), RMaxAbs(x)))
                   tb == RMul(Eps(64), RDiv(RMul(RI(k), RAdd(ly, RMul(RAbs(beta), lx))), s))
                   td == RAdd(RMul(Eps(64), RMul(RI(k), RAdd(ly, RMul(RAdd(R1, RAbs(beta)), lx)))), RMul(tb, RMaxAbs(dx)))
               IN Must("C32.slope", Within(Scalar(r.beta), beta, tb))
                  \cup Must("C32.deviation", Within(Scalar(r.rmse), dev, td) /\ RSign(Scalar(r.rmse)) >= 0)
(* an exact power law of exponent p gives p and no deviation                      *)
PowerLaw(e) ==
  LET r == e.r IN
  IF r.exc # "" THEN {"C32.power-law-raises"}
  ELSE Must("C32.power-law", Within(Scalar(r.beta), Scalar(e.a.p), RMul(Eps(4096), RAdd(R1, RAbs(Scalar(e.a.p)))))
                          /\ Within(Scalar(r.rmse), R0, RMul(Eps(4096), RAdd(R1, RAbs(Scalar(e.a.p))))))
=============================================================================
