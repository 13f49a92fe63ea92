------------------------------- MODULE Colloc -------------------------------
(***************************************************************************)
(* Collocation methods on [tl, tr] and the forms every Q-generator offers. *)
(***************************************************************************)
EXTENDS Lagrange, Nodes

(* ------------------------------ coefficients ---------------------------- *)
CollTimes(a) == <<Scalar(a.tl), Scalar(a.tr)>>
CollValid(a) == a.nt \in NodeTypes /\ a.qt \in QuadTypes /\ a.n >= MinNodes(a.qt)
CollNew(e) ==
  LET tl == Scalar(e.a.tl) tr == Scalar(e.a.tr) n == e.a.n q == e.a.qt IN
  IF ~CollValid(e.a) THEN Must("C03.accepted", e.r.exc # "")
  ELSE IF e.r.exc # "" THEN {"C03.raises"}
  ELSE IF ~IsVec(e.r.nodes, n) \/ ~IsVec(e.r.w, n) \/ ~IsMat(e.r.Q, n, n) THEN {"C03.shape"}
  ELSE LET x == VecOf(e.r.nodes) b == VecOf(e.r.w) Q == MatOf(e.r.Q)
           len == RSub(tr, tl)
           \* back to [-1, 1]
           ref == Vn(n, LAMBDA i : RSub(RDiv(RMul(R2, RSub(x[i], tl)), len), R1))
           off == RDiv(RMax(RAbs(tl), RAbs(tr)), len)
           bw == BaryWeights(x)
           pr == Prims(BasisPolys(x))
       IN Failing(<<
         <<"C03.nodes", LocatedTol(e.a.nt, q, ref, RMul(NodeTol(n), RAdd(R1, off)))>>,
         <<"C03.increasing", \A i \in 1..(n - 1) : RLt(x[i], x[i + 1])>>,
         <<"C03.left", HasLeft(q) => x[1] = tl>>,
         <<"C03.right", HasRight(q) => x[n] = tr>>,
         <<"C03.inside", \A i \in 1..n : (i = 1 /\ HasLeft(q)) \/ (i = n /\ HasRight(q)) \/ (RLt(tl, x[i]) /\ RLt(x[i], tr))>>,
         <<"C03.left-row", HasLeft(q) => RSign(RMaxAbs(Q[1])) = 0>>,
         <<"C03.Q", \A m \in 1..n : VWithin(Q[m], BasisInt(pr, tl, x[m]), IntegTol(x, bw, tl, x[m]))>>,
         <<"C03.weights", VWithin(b, BasisInt(pr, tl, tr), IntegTol(x, bw, tl, tr))>> >>)

(* -------------------------------- order ---------------------------------- *)
(* Legendre polynomials P_0..P_m at y (sequence, index k + 1)               *)
LegendreVals(y, m) ==
  FoldLeft(LAMBDA p, k : Append(p, RRound(RDiv(RSub(RMul(RI(2 * k + 1), RMul(y, p[k + 1])), RMul(RI(k), p[k])), RI(k + 1)), 200)),
           <<R1, y>>, [k \in 1..m |-> k])
CollOrder(e) ==
  LET tl == Scalar(e.a.tl) tr == Scalar(e.a.tr) n == e.a.n IN
  IF e.r.exc # "" THEN {"C04.raises"}
  ELSE IF ~IsVec(e.r.nodes, n) \/ ~IsVec(e.r.w, n) \/ ~IsMat(e.r.Q, n, n) THEN {"C04.shape"}
  ELSE LET x == VecOf(e.r.nodes) b == VecOf(e.r.w) Q == MatOf(e.r.Q) p == e.r.order
           len == RSub(tr, tl)
           y == Vn(n, LAMBDA i : RSub(RDiv(RMul(R2, RSub(x[i], tl)), len), R1))
           off == RDiv(RMax(RAbs(tl), RAbs(tr)), len)
           top == 2 * n + 1
           L == Vn(n, LAMBDA i : LegendreVals(y[i], top + 1))
           res(row, yy, k, Ly) ==       \* sum_j row_j P_k(y_j) - int_{-1}^{yy} P_k, scaled to [-1, 1]
             RSub(RDiv(RMul(R2, RDot(row, Vn(n, LAMBDA j : L[j][k + 1]))), len),
                  IF k = 0 THEN RAdd(yy, R1) ELSE RDiv(RSub(Ly[k + 2], Ly[k]), RI(2 * k + 1)))
           lam2 == LET z == LebesgueOn(x, BaryWeights(x), tl, tr) IN RMul(z, z)
           one == LegendreVals(R1, top + 1)
           tol(row) == RMul(RMul(Eps(2048 * (n + 8)), RAdd(R1, off)),
                            RAdd(R1, RMul(RI(n), RDiv(VAbsSum(row), len))))
           errW == Vn(top + 1, LAMBDA k : RAbs(res(b, R1, k - 1, one)))
           formal == CHOOSE k \in 0..top : RLt(RMul(RI(64), tol(b)), errW[k + 1])
                        /\ \A j \in 0..(k - 1) : ~RLt(RMul(RI(64), tol(b)), errW[j + 1])
       IN IF \A k \in 0..top : ~RLt(RMul(RI(64), tol(b)), errW[k + 1]) THEN {"C04.order-unbounded"}
          ELSE Failing(<<
            <<"C04.order", p = formal>>,
            <<"C04.exact", \A k \in 0..(p - 1) : k > top \/ RLe(errW[k + 1], tol(b))>>,
            <<"C04.rows", \A m \in 1..n : \A k \in 0..(n - 1) :
                 RLe(RAbs(res(Q[m], y[m], k, L[m])), RMul(tol(Q[m]), lam2))>> >>)

(* Many nodes (of the families for which interpolation is stable): rows and   *)
(* weights integrate every Legendre polynomial of degree below n.             *)
CollMany(e) ==
  LET tl == Scalar(e.a.tl) tr == Scalar(e.a.tr) n == e.a.n q == e.a.qt IN
  IF e.r.exc # "" THEN {"C03.raises"}
  ELSE IF ~IsVec(e.r.nodes, n) \/ ~IsVec(e.r.w, n) \/ ~IsMat(e.r.Q, n, n) THEN {"C03.shape"}
  ELSE LET x == VecOf(e.r.nodes) b == VecOf(e.r.w) Q == MatOf(e.r.Q)
           len == RSub(tr, tl)
           y == Vn(n, LAMBDA i : RSub(RDiv(RMul(R2, RSub(x[i], tl)), len), R1))
           off == RDiv(RMax(RAbs(tl), RAbs(tr)), len)
           L == Vn(n, LAMBDA i : LegendreVals(y[i], n))
           one == LegendreVals(R1, n)
           res(row, yy, k, Ly) ==
             RSub(RDiv(RMul(R2, RDot(row, Vn(n, LAMBDA j : L[j][k + 1]))), len),
                  IF k = 0 THEN RAdd(yy, R1) ELSE RDiv(RSub(Ly[k + 2], Ly[k]), RI(2 * k + 1)))
           tol == RMul(RMul(Eps(2048 * (n + 8)), RAdd(R1, off)), RI(4 * n))
       IN Failing(<<
         <<"C03.nodes", LocatedTol(e.a.nt, q, y, RMul(NodeTol(n), RAdd(R1, off)))>>,
         <<"C03.increasing", \A i \in 1..(n - 1) : RLt(x[i], x[i + 1])>>,
         <<"C03.left", HasLeft(q) => x[1] = tl>>,
         <<"C03.right", HasRight(q) => x[n] = tr>>,
         <<"C03.left-row", HasLeft(q) => RSign(RMaxAbs(Q[1])) = 0>>,
         <<"C03.many-Q", \A m \in 1..n : \A k \in 0..(n - 1) : RLe(RAbs(res(Q[m], y[m], k, L[m])), tol)>>,
         <<"C03.many-weights", \A k \in 0..(n - 1) : RLe(RAbs(res(b, R1, k, one)), tol)>> >>)

(* -------------------------- forms of the coefficients --------------------- *)
N2N(A) == Vn(Len(A), LAMBDA i : IF i = 1 THEN A[1] ELSE VSub(A[i], A[i - 1]))
TransferT(n) == Mn(n, n, LAMBDA i, j : IF i = j THEN R1 ELSE IF j = i - 1 THEN RI(-1) ELSE R0)
TransferTinv(n) == Mn(n, n, LAMBDA i, j : IF j <= i THEN R1 ELSE R0)
SameList(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : SameArr(u[k], v[k])
(* error of an N2N matrix built from rounded coefficients *)
CollFormTol(e, nodes) ==
  LET n == Len(nodes) IN
  IF n = 1 THEN RMul(Eps(64), RMax(RAbs(Scalar(e.a.tl)), RAbs(Scalar(e.a.tr))))
  ELSE LET lo == RMin(Scalar(e.a.tl), nodes[1]) hi == RMax(Scalar(e.a.tr), nodes[n])
           bw == BaryWeights(nodes)
       IN RMul(R2, IntegTol(nodes, bw, lo, hi))
Forms(e) ==
  LET r == e.r IN
  IF r.exc # "" THEN {"C05.raises"}
  ELSE LET n == r.nodes.sh[1] IN
  IF ~IsVec(r.nodes, n) \/ ~IsVec(r.w, n) \/ ~IsMat(r.Q, n, n) \/ ~IsMat(r.S, n, n) \/ ~IsMat(r.T, n, n) \/ ~IsMat(r.Tinv, n, n)
  THEN {"C05.shape"}
  ELSE LET Q == MatOf(r.Q) S == MatOf(r.S) d == N2N(Q)
           hasEmb == r.w2.sh # <<-1>>
           ctol == CollFormTol(e, VecOf(r.nodes))
           col == Vn(n, LAMBDA j : RMul(Eps(16 * n), RMaxAbs(Vn(n, LAMBDA i : Q[i][j]))))
           tol(j) == IF e.a.kind = "coll" THEN ctol ELSE col[j]
           W2(v) == /\ v.sh = <<2, n>> /\ RVec(v.d) = RVec(r.w.d) \o RVec(r.w2.d)
       IN Failing(<<
         <<"C05.T", MatOf(r.T) = TransferT(n)>>,
         <<"C05.Tinv", MatOf(r.Tinv) = TransferTinv(n)>>,
         <<"C05.inverses", MatOf(r.T) # TransferT(n) \/ RMatMul(MatOf(r.T), MatOf(r.Tinv)) = MId(n)>>,
         <<"C05.S", \A i, j \in 1..n : RLe(RAbs(RSub(S[i][j], d[i][j])), tol(j))>>,
         <<"C05.genCoeffs", SameList(r.z, <<r.nodes, r.w, r.Q>>)>>,
         <<"C05.genCoeffs-N2N", SameList(r.zn, <<r.nodes, r.w, r.S>>)>>,
         <<"C05.genCoeffs-hCoeffs", SameList(r.zh, <<r.nodes, r.w, r.Q, r.h>>) /\ SameList(r.znh, <<r.nodes, r.w, r.S, r.h>>)>>,
         <<"C05.genCoeffs-embedded", IF ~hasEmb THEN r.zeExc = "NotImplementedError"
              ELSE Len(r.ze) = 4 /\ SameArr(r.ze[1], r.nodes) /\ W2(r.ze[2]) /\ SameArr(r.ze[3], r.Q) /\ SameArr(r.ze[4], r.h)>>,
         <<"C05.generic", SameList(r.gen, r.genRef)>> >>)
BadForm(e) == Refused("C05.form-accepted", e, {"ValueError"})

(* N2N form and genCoeffs of a QDelta generator *)
DeltaForms(e) ==
  LET r == e.r n == e.a.n IN
  IF r.exc # "" THEN {"C05.delta-raises"}
  ELSE IF ~IsMat(r.QD, n, n) \/ ~IsMat(r.SD, n, n) THEN {"C05.delta-shape"}
  ELSE LET QD == MatOf(r.QD) IN Failing(<<
         <<"C05.delta-S", LET SD == MatOf(r.SD) d == N2N(QD) IN \A j \in 1..n :
              LET tol == RMul(Eps(16 * n), RMaxAbs(Vn(n, LAMBDA i : QD[i][j])))
              IN \A i \in 1..n : RLe(RAbs(RSub(SD[i][j], d[i][j])), tol)>>,
         <<"C05.delta-genCoeffs", SameArr(r.gz, r.QD) /\ SameArr(r.gn, r.SD)>>,
         <<"C05.delta-dTau", Len(r.gd) = 2 /\ SameArr(r.gd[1], r.SD) /\ SameArr(r.gd[2], r.dTau) /\ IsVec(r.dTau, n)>> >>)

(* ------------------------- right boundary coefficients -------------------- *)
RightCoeffs(e) ==
  LET r == e.r IN
  IF r.exc # "" THEN {"C06.raises"}
  ELSE LET n == r.nodes.sh[1] IN
  IF ~IsVec(r.h, n) THEN {"C06.shape"}
  ELSE LET p == VecOf(r.nodes) h == VecOf(r.h) t == Scalar(e.a.right)
           x == XPoints(p)
           want == BasisAt(x, BaryWeights(x), t)
           tol == InterpTol(Len(x), want)
           occ(k) == {i \in 1..n : p[i] = x[k]}
           onNode == p[n] = t
       IN Failing(<<
         <<"C06.one-duplicate", \A k \in 1..Len(x) : Cardinality({i \in occ(k) : RSign(h[i]) # 0}) <= 1>>,
         <<"C06.lagrange", \A k \in 1..Len(x) : LET i0 == CHOOSE i \in occ(k) : \A j \in occ(k) : RLe(RAbs(h[j]), RAbs(h[i]))
                             IN Within(h[i0], want[k], tol)>>,
         <<"C06.flag", r.rin = onNode>>,
         <<"C06.select", onNode => \A k \in 1..Len(x) : \A i \in occ(k) :
              (x[k] # t => RSign(h[i]) = 0) /\ (x[k] = t => h[i] \in {R0, R1})>> >>)

(* ---------------------------- default instances ----------------------------- *)
(* r.u: coefficients of getInstance(), r.v: of the class with DEFAULT_PARAMS,   *)
(* r.g: of genQCoeffs with them                                                  *)
DefaultInstance(e) ==
  LET r == e.r IN
  IF r.exc # "" THEN {"C39.raises"}
  ELSE LET n == Len(RVec(r.u[1].d)) IN Failing(<<
    <<"C39.class", r.mine>>, <<"C39.fresh", r.fresh>>,
    <<"C39.coefficients", SameList(r.u, r.v)>>,
    <<"C39.generic", SameArr(r.g[1], r.v[1]) /\ SameArr(r.g[2], r.v[2]) /\ SameArr(r.g[3], r.v[3]) /\ SameArr(r.g[4], r.v[7])>>,
    <<"C39.shapes", r.nNodes = n /\ r.u[1].sh = <<n>> /\ r.u[2].sh = <<n>> /\ \A k \in 3..6 : r.u[k].sh = <<n, n>>>>,
    <<"C39.order", r.order = r.orderD /\ r.order >= 1 /\ r.emb <= r.order>>,
    <<"C39.right", r.right = (RVec(r.u[1].d)[n] = R1)>> >>)
=============================================================================
