-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Vectors, matrices, polynomials and complex numbers over exact rationals.*)
(* A vector is a sequence, a matrix a sequence of rows.                    *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, SequencesExt, FiniteSets, TLC

R0 == RI(0)
R1 == RI(1)
R2 == RI(2)
Half == RQ(1, 2)

Vn(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Mn(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])

VAdd(u, v) == Vn(Len(u), LAMBDA i : RAdd(u[i], v[i]))
VSub(u, v) == Vn(Len(u), LAMBDA i : RSub(u[i], v[i]))
VScale(a, u) == Vn(Len(u), LAMBDA i : RMul(a, u[i]))
VMul(u, v) == Vn(Len(u), LAMBDA i : RMul(u[i], v[i]))
VPow(u, k) == Vn(Len(u), LAMBDA i : RPow(u[i], k))
VRound(u, b) == Vn(Len(u), LAMBDA i : RRound(u[i], b))
VAbsSum(u) == RSum(Vn(Len(u), LAMBDA i : RAbs(u[i])))
Ones(n) == Vn(n, LAMBDA i : R1)
MMap(A, F(_)) == Vn(Len(A), LAMBDA i : Vn(Len(A[i]), LAMBDA j : F(A[i][j])))
MAdd(A, B) == Vn(Len(A), LAMBDA i : VAdd(A[i], B[i]))
MSub(A, B) == Vn(Len(A), LAMBDA i : VSub(A[i], B[i]))
MScale(a, A) == Vn(Len(A), LAMBDA i : VScale(a, A[i]))
MVec(A, v) == Vn(Len(A), LAMBDA i : RDot(A[i], v))
MTrans(A) == IF A = <<>> THEN <<>> ELSE Mn(Len(A[1]), Len(A), LAMBDA i, j : A[j][i])
MId(n) == Mn(n, n, LAMBDA i, j : IF i = j THEN R1 ELSE R0)
MDiag(d) == Mn(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE R0)
MMaxAbs(A) == RMaxAbs(Vn(Len(A), LAMBDA i : RMaxAbs(A[i])))
(* infinity norm *)
MNorm(A) == RMaxAbs(Vn(Len(A), LAMBDA i : VAbsSum(A[i])))
MRound(A, b) == MMap(A, LAMBDA x : RRound(x, b))

(* ---------------------------- comparison ------------------------------ *)
Within(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
VWithin(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Within(u[i], v[i], tol)
MWithin(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VWithin(A[i], B[i], tol)

(* --------------------------- linear systems --------------------------- *)
(* Gauss elimination with row exchange on the augmented matrix; entries are *)
(* rounded to `bits` (0: kept exact).  Result: solution matrix X of A X = B, *)
(* or <<>> when A is singular.                                            *)
LOCAL RBits(x, bits) == IF bits = 0 THEN x ELSE RRound(x, bits)
LOCAL PivotRow(W, k) ==
  LET best == FoldLeft(LAMBDA p, i : IF RLt(RAbs(W[p][k]), RAbs(W[i][k])) THEN i ELSE p,
                       k, [i \in 1..(Len(W) - k) |-> k + i])
  IN best
LOCAL ElimStep(W, k, bits) ==
  IF W = <<>> THEN W ELSE
  LET p == PivotRow(W, k)
      n == Len(W)
      m == Len(W[1])
  IN IF RSign(W[p][k]) = 0 THEN <<>> ELSE
     LET S  == TLCEval([i \in 1..n |-> IF i = k THEN W[p] ELSE IF i = p THEN W[k] ELSE W[i]])
         pr == Vn(m, LAMBDA j : RBits(RDiv(S[k][j], S[k][k]), bits))
     IN TLCEval([i \in 1..n |->
          IF i = k THEN pr
          ELSE IF RSign(S[i][k]) = 0 THEN S[i]
          ELSE Vn(m, LAMBDA j : RBits(RSub(S[i][j], RMul(S[i][k], pr[j])), bits))])
MSolveBits(A, B, bits) ==
  LET n == Len(A)
      W == TLCEval([i \in 1..n |-> A[i] \o B[i]])
      E == FoldLeft(LAMBDA w, k : ElimStep(w, k, bits), W, [k \in 1..n |-> k])
  IN IF E = <<>> /\ n > 0 THEN <<>> ELSE Vn(n, LAMBDA i : SubSeq(E[i], n + 1, Len(E[i])))
MSolve(A, B) == MSolveBits(A, B, 0)
VSolve(A, b) == LET X == MSolve(A, Vn(Len(b), LAMBDA i : <<b[i]>>))
                IN IF X = <<>> THEN <<>> ELSE Vn(Len(b), LAMBDA i : X[i][1])
VSolveBits(A, b, bits) == LET X == MSolveBits(A, Vn(Len(b), LAMBDA i : <<b[i]>>), bits)
                IN IF X = <<>> THEN <<>> ELSE Vn(Len(b), LAMBDA i : X[i][1])

(* characteristic polynomial det(x I - A), constant term first (Faddeev-LeVerrier) *)
CharPoly(A) ==
  LET n == Len(A)
      step(acc, k) ==          \* acc = <<M_k, coefficients c_n .. c_{n-k}>>
        LET AM == RMatMul(A, acc[1])
            c  == RDiv(RNeg(RSum(Vn(n, LAMBDA i : AM[i][i]))), RI(k))
        IN <<Mn(n, n, LAMBDA i, j : IF i = j THEN RAdd(AM[i][j], c) ELSE AM[i][j]), Append(acc[2], c)>>
      r == FoldLeft(step, <<MId(n), <<R1>>>>, [k \in 1..n |-> k])
  IN Reverse(r[2])

(* ----------------------------- polynomials ---------------------------- *)
PolyAdd(p, q) == Vn(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q),
  LAMBDA i : RAdd(IF i <= Len(p) THEN p[i] ELSE R0, IF i <= Len(q) THEN q[i] ELSE R0))
PolyScale(a, p) == VScale(a, p)
PolyDeriv(p) == IF Len(p) <= 1 THEN <<R0>> ELSE Vn(Len(p) - 1, LAMBDA i : RMul(RI(i), p[i + 1]))
PolyPrim(p) == <<R0>> \o Vn(Len(p), LAMBDA i : RDiv(p[i], RI(i)))
(* product of (x - r[i]) *)
PolyFromRoots(r) == FoldLeft(LAMBDA p, x : RPolyMul(p, <<RNeg(x), R1>>), <<R1>>, r)
(* quotient of p by (x - r), p(r) = 0 *)
PolyDivRoot(p, r) ==
  LET n == Len(p)
      q == FoldLeft(LAMBDA acc, k : Append(acc, RAdd(p[n - k + 1], RMul(r, acc[Len(acc)]))),
                    <<p[n]>>, [k \in 1..(n - 2) |-> k + 1])
  IN IF n <= 1 THEN <<>> ELSE Reverse(q)

(* --------------------------- complex numbers -------------------------- *)
C(re, im) == <<re, im>>
CR(x) == <<x, R0>>
C0 == <<R0, R0>>
C1 == <<R1, R0>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CScale(x, a) == <<RMul(x, a[1]), RMul(x, a[2])>>
CNorm2(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CAbs1(a) == RAdd(RAbs(a[1]), RAbs(a[2]))
CDiv(a, b) == LET d == CNorm2(b) c == CMul(a, <<b[1], RNeg(b[2])>>)
              IN <<RDiv(c[1], d), RDiv(c[2], d)>>
CRound(a, bits) == <<RRound(a[1], bits), RRound(a[2], bits)>>
CWithin(a, b, tol) == Within(a[1], b[1], tol) /\ Within(a[2], b[2], tol)
(* (X + iY) applied to (u + iv) as one real system of twice the size *)
CSolveBits(Re, Im, rhs, bits) ==
  LET n == Len(Re)
      A == Mn(2 * n, 2 * n, LAMBDA i, j :
             IF i <= n THEN (IF j <= n THEN Re[i][j] ELSE RNeg(Im[i][j - n]))
             ELSE (IF j <= n THEN Im[i - n][j] ELSE Re[i - n][j - n]))
      b == Vn(2 * n, LAMBDA i : IF i <= n THEN rhs[i][1] ELSE rhs[i - n][2])
      x == VSolveBits(A, b, bits)
  IN IF x = <<>> THEN <<>> ELSE TLCEval([i \in 1..n |-> <<x[i], x[n + i]>>])

(* ------------------- exponential, logarithm, pi (rational) ------------- *)
(* bounds 2^-80-ish relative accuracy for |z| <= 64 by scaling and squaring  *)
CExp(z) ==
  LET w == CScale(RQ(1, 1024), z)                \* |w| small
      t == FoldLeft(LAMBDA acc, k :
             LET nt == CRound(CScale(RQ(1, k), CMul(acc[1], w)), 300)
             IN <<nt, CAdd(acc[2], nt)>>,
             <<C1, C1>>, [k \in 1..30 |-> k])
  IN FoldLeft(LAMBDA a, k : CRound(CMul(a, a), 300), t[2], [k \in 1..10 |-> k])
RExp(x) == CExp(CR(x))[1]
(* ln x for x > 0: ln x = 2 atanh((x-1)/(x+1)) after scaling by powers of 2  *)
LOCAL Atanh(y) ==
  LET y2 == RMul(y, y)
      t == FoldLeft(LAMBDA acc, k :
             LET p == RRound(RMul(acc[1], y2), 300)
             IN <<p, RAdd(acc[2], RDiv(p, RI(2 * k + 1)))>>,
             <<y, y>>, [k \in 1..60 |-> k])
  IN RRound(t[2], 300)
Ln2 == RMul(R2, Atanh(RQ(1, 3)))
RECURSIVE LnScaled(_, _)
LnScaled(x, k) ==
  IF RLt(RI(2), x) THEN LnScaled(RMul(x, Half), k + 1)
  ELSE IF RLt(x, R1) THEN LnScaled(RMul(x, R2), k - 1)
  ELSE RAdd(RMul(RI(k), Ln2), RMul(R2, Atanh(RDiv(RSub(x, R1), RAdd(x, R1)))))
RLn(x) == LnScaled(RRound(x, 300), 0)
(* Machin: pi = 16 atan(1/5) - 4 atan(1/239) *)
LOCAL AtanInv(q) ==
  FoldLeft(LAMBDA a, k : LET t == RDiv(RPow(RI(q), -(2 * k + 1)), RI(2 * k + 1))
                         IN IF k % 2 = 0 THEN RAdd(a, t) ELSE RSub(a, t), R0, [k \in 1..50 |-> k - 1])
Pi == RRound(RSub(RMul(RI(16), AtanInv(5)), RMul(RI(4), AtanInv(239))), 200)
=============================================================================
