------------------------------- MODULE QDelta --------------------------------
(***************************************************************************)
(* Approximations of a quadrature matrix: time stepping schemes run node   *)
(* to node, algebraic approximations, diagonal approximations, and the     *)
(* selection of one matrix per sweep.                                      *)
(***************************************************************************)
EXTENDS Colloc

(* --------------------------- time stepping -------------------------------- *)
(* A scheme run from tl through the nodes, as the linear map from the right *)
(* hand side values at the nodes (and at tl: dTau) to the increments.       *)
Steps(tl, c) == Vn(Len(c), LAMBDA i : RSub(c[i], IF i = 1 THEN tl ELSE c[i - 1]))
BEmat(h) == Mn(Len(h), Len(h), LAMBDA m, j : IF j <= m THEN h[j] ELSE R0)
FEmat(h) == Mn(Len(h), Len(h), LAMBDA m, j : IF j < m THEN h[j + 1] ELSE R0)
(* leap-frog: the derivative at t_m of the parabola (a line when tl is the  *)
(* first node) through three successive values is the right hand side at t_m *)
LeapFrog(tl, c) ==
  LET n == Len(c)
      t(i) == IF i = 0 THEN tl ELSE c[i]
      row(m, rows) ==      \* row m (>= 2) from the rows before; rows[1] is zero
        LET a == t(m - 2) b == t(m - 1) d == t(m) IN
        IF a = b THEN Vn(n, LAMBDA j : IF j = m - 1 THEN RSub(d, b) ELSE rows[m - 1][j])
        ELSE LET ab == RSub(b, a) bd == RSub(d, b) ad == RSub(d, a)
                 am == RNeg(RDiv(bd, RMul(ab, ad)))           \* weights of the derivative at b
                 a0 == RDiv(RSub(bd, ab), RMul(ab, bd))
                 ap == RDiv(ab, RMul(bd, ad))
                 old == IF m >= 3 THEN rows[m - 2] ELSE Vn(n, LAMBDA j : R0)
             IN Vn(n, LAMBDA j : RDiv(RSub(IF j = m - 1 THEN R1 ELSE R0,
                       RAdd(RMul(a0, rows[m - 1][j]), RMul(am, old[j]))), ap))
  IN FoldLeft(LAMBDA rows, m : Append(rows, row(m, rows)), <<Vn(n, LAMBDA j : R0)>>, [k \in 1..(n - 1) |-> k + 1])
(* growth of the rounding errors along the recursion *)
LeapFrogErr(tl, c) ==
  LET n == Len(c)
      t(i) == IF i = 0 THEN tl ELSE c[i]
      scale == RMax(RAbs(tl), RMaxAbs(c))
      f(m) == LET a == t(m - 2) b == t(m - 1) d == t(m) IN
              IF a = b THEN R2
              ELSE RAdd(R1, RAdd(RDiv(RAbs(RSub(RSub(d, b), RSub(b, a))), RSub(b, a)), RDiv(RSub(d, b), RSub(b, a))))
      \* relative error of a difference of nodes
      rel(m) == RDiv(scale, IF t(m - 2) = t(m - 1) THEN RSub(t(m), t(m - 1)) ELSE RMin(RSub(t(m), t(m - 1)), RSub(t(m - 1), t(m - 2))))
      len == RSub(c[n], tl)
  IN FoldLeft(LAMBDA acc, m : LET f1 == RAdd(RMul(acc[1], RAdd(f(m), RMul(f(m), f(m)))), RMul(RMul(len, rel(m)), f(m)))
                              IN <<f1, Append(acc[2], f1)>>,
              <<scale, <<scale>>>>, [k \in 1..(n - 1) |-> k + 1])[2]
Scheme(name, tl, c) ==
  LET h == Steps(tl, c) n == Len(c) x == Vn(n, LAMBDA i : RSub(c[i], tl)) z == Vn(n, LAMBDA i : R0) IN
  CASE name = "BE" -> [Q |-> BEmat(h), d |-> z]
    [] name = "FE" -> [Q |-> FEmat(h), d |-> Vn(n, LAMBDA i : h[1])]
    [] name = "TRAP" -> [Q |-> MScale(Half, MAdd(BEmat(h), FEmat(h))), d |-> Vn(n, LAMBDA i : RMul(Half, h[1]))]
    [] name = "BEPAR" -> [Q |-> MDiag(x), d |-> z]
    [] name = "TRAPAR" -> [Q |-> MDiag(VScale(Half, x)), d |-> VScale(Half, x)]
    [] name = "SOE" -> [Q |-> LeapFrog(tl, c), d |-> Vn(n, LAMBDA i : h[1])]
TimeStep(e) ==
  LET c == VecOf(e.a.nodes) tl == Scalar(e.a.tl) n == Len(c) name == e.a.name r == e.r IN
  IF r.exc # "" THEN {"C19." \o name \o "-raises"}
  ELSE IF ~IsMat(r.QD, n, n) \/ ~IsVec(r.dTau, n) THEN {"C19." \o name \o "-shape"}
  ELSE LET W == Scheme(name, tl, c) QD == MatOf(r.QD) d == VecOf(r.dTau)
           tol == RMul(Eps(8), RMax(RAbs(tl), RMaxAbs(c)))
           le == LeapFrogErr(tl, c)
       IN Failing(<<
         <<"C19." \o name, IF name # "SOE" THEN MWithin(QD, W.Q, tol)
                           ELSE \A m \in 1..n : VWithin(QD[m], W.Q[m], RMul(Eps(64), le[m]))>>,
         <<"C19." \o name \o "-zeros", \A i, j \in 1..n : RSign(W.Q[i][j]) = 0 /\ (j >= i \/ name \in {"BEPAR", "TRAPAR"}) => RSign(QD[i][j]) = 0>>,
         <<"C19." \o name \o "-dTau", VWithin(d, W.d, tol)>>,
         <<"C19." \o name \o "-row-sums", name = "SOE" \/
              \A m \in 1..n : Within(RAdd(RSum(QD[m]), d[m]), RSub(c[m], tl), RMul(RI(n + 1), tol))>>,
         <<"C19." \o name \o "-type", r.QD.ty = "f" /\ r.dTau.ty = "f">> >>)

(* ------------------------------ algebraic --------------------------------- *)
TriL(Q) == Mn(Len(Q), Len(Q), LAMBDA i, j : IF j <= i THEN Q[i][j] ELSE R0)
DiagOf(Q) == Vn(Len(Q), LAMBDA i : Q[i][i])
(* Is U the triangular factor of some elimination of W with row exchange in  *)
(* which every pivot has maximal magnitude?  The rows left are eliminated    *)
(* with U itself; err bounds what rounding may have changed in them.         *)
LUFactor(W, U, err0) ==
  LET n == Len(W)
      step(acc, k) ==           \* acc = <<rows left, error bound, accepted>>
        IF ~acc[3] THEN acc ELSE
        LET R == acc[1] err == acc[2]
            big == RMaxAbs(Vn(Len(R), LAMBDA i : R[i][k]))
            ok == {i \in 1..Len(R) : /\ RLe(RSub(big, err), RAbs(R[i][k]))
                                     /\ \A j \in k..n : Within(R[i][j], U[k][j], err)}
        IN IF ok = {} THEN <<R, err, FALSE>>
           ELSE LET p == CHOOSE i \in ok : \A j \in ok : i <= j
                    d == U[k][k]
                    rest == SelectSeq([i \in 1..Len(R) |-> i], LAMBDA i : i # p)
                    next == TLCEval([i \in 1..Len(rest) |-> LET w == R[rest[i]] IN
                              IF RSign(d) = 0 THEN w
                              ELSE LET m == RDiv(w[k], d) IN Vn(n, LAMBDA j : IF j = k THEN R0 ELSE RRound(RSub(w[j], RMul(m, U[k][j])), 200))])
                    grow == IF RSign(d) = 0 THEN R1 ELSE RAdd(R1, RDiv(RMaxAbs(U[k]), RAbs(d)))
                IN <<next, RRound(RMul(err, grow), 60), TRUE>>
  IN FoldLeft(step, <<W, err0, TRUE>>, [k \in 1..n |-> k])[3]
(* the entries of D when no leading minor but the last vanishes; first order *)
(* bound of the rounding errors along the elimination in e                   *)
PivotFree(A) ==
  LET n == Len(A)
      step(acc, k) ==       \* acc = <<W, E, D, err of D, defined>>
        IF ~acc[5] THEN acc ELSE
        LET W == acc[1] E == acc[2] d == W[k][k] ad == RAbs(d)
            D == Append(acc[3], d) F == Append(acc[4], E[k][k]) IN
        IF k = n THEN <<W, E, D, F, TRUE>>
        ELSE IF RLe(ad, RMul(RI(16), E[k][k])) THEN <<W, E, D, F, FALSE>>
        ELSE LET l == Vn(n, LAMBDA i : RAbs(RDiv(W[i][k], d)))
                 u == Vn(n, LAMBDA j : RAbs(RDiv(W[k][j], d)))
             IN <<Mn(n, n, LAMBDA i, j : IF i <= k \/ j <= k THEN W[i][j] ELSE RRound(RSub(W[i][j], RDiv(RMul(W[i][k], W[k][j]), d)), 300)),
                  Mn(n, n, LAMBDA i, j : IF i <= k \/ j <= k THEN E[i][j]
                     ELSE RRound(RSum(<<E[i][j], RMul(u[j], E[i][k]), RMul(l[i], E[k][j]), RMul(RMul(l[i], u[j]), E[k][k]),
                            RMul(Eps(4 * n), RSum(<<RAbs(W[i][j]), RMul(R2, RMul(RMul(l[i], u[j]), ad))>>))>>), 60)),
                  D, F, TRUE>>
  IN FoldLeft(step, <<A, MMap(A, LAMBDA x : RMul(Eps(4), RAbs(x))), <<>>, <<>>, TRUE>>, [k \in 1..n |-> k])
Algebraic(e) ==
  LET Q == MatOf(e.a.Q) n == Len(Q) name == e.a.name r == e.r
      PF == PivotFree(Q) IN
  IF name = "LDU" /\ ~PF[5] THEN {}
  ELSE IF r.exc # "" THEN {"C20." \o name \o "-raises"}
  ELSE IF \E k \in 1..Len(r.QD) : ~IsMat(r.QD[k], n, n) THEN {"C20." \o name \o "-shape"}
  ELSE LET QD == MatOf(r.QD[1]) fl == r.QD[1].ty = "f"
           err0 == RMul(Eps(16 * n * n), RMax(MMaxAbs(Q), MMaxAbs(QD)))
           fac(L) == LUFactor(MTrans(Q), MTrans(L), err0)
           lower(L) == \A i, j \in 1..n : j > i => RSign(L[i][j]) = 0
       IN Failing(<<
         <<"C20." \o name, CASE name = "PIC" -> RSign(MMaxAbs(QD)) = 0
              [] name = "Exact" -> QD = Q
              [] name = "QPar" -> QD = MDiag(DiagOf(Q))
              [] name = "GS" -> QD = TriL(Q)
              [] name = "LU" -> lower(QD) /\ fac(QD)
              [] name = "LU2" -> lower(QD) /\ fac(MScale(Half, QD))
              [] name = "LDU" -> \A i, j \in 1..n : Within(QD[i][j], IF i = j THEN PF[3][i] ELSE R0, IF i = j THEN PF[4][i] ELSE R0)>>,
         <<"C20." \o name \o "-type", fl>>,
         <<"C20." \o name \o "-depends-on-sweep", \A k \in 1..Len(r.QD) : SameArr(r.QD[k], r.QD[1])>>,
         <<"C20." \o name \o "-dTau", IsVec(r.dTau, n) /\ RSign(RMaxAbs(VecOf(r.dTau))) = 0>> >>)

(* ---------------------- closed form diagonal matrices ---------------------- *)
(* k = 0: no sweep index given *)
KDependent == {"Jumper", "FlexJumper", "MIN_SR_FLEX"}
DiagNew(e) == Must("C21.raises", e.r.exc = "")
Divider(name, k, n) ==
  LET kk == IF k = 0 THEN 1 ELSE k IN
  CASE name = "MIN_SR_NS" -> n
    [] name = "DNODES" -> 1 [] name = "DNODES2" -> 2 [] name = "DNODES3" -> 3 [] name = "DNODES4" -> 4 [] name = "DNODES5" -> 5
    [] name = "Jumper" -> 2 * kk
    [] name = "FlexJumper" -> (IF kk = 1 THEN 1 ELSE 2 * (kk - 1))
    [] name = "MIN_SR_FLEX" -> kk
(* o: creation of the generator (nodes), e.a.k the index, e.a.none TRUE when not given *)
DiagGet(o, e) ==
  LET name == o.a.name c == VecOf(o.a.nodes) n == Len(c) r == e.r k == IF e.a.none THEN 0 ELSE e.a.k IN
  IF ~e.a.none /\ e.a.k < 1 THEN
     (IF name \in KDependent THEN Refused("C21." \o name \o "-sweep-index-below-one", e, {"ValueError"}) ELSE {})
  ELSE IF r.exc # "" THEN {"C21." \o name \o "-raises"}
  ELSE IF ~IsMat(r.QD, n, n) THEN {"C21." \o name \o "-shape"}
  ELSE LET QD == MatOf(r.QD) IN
       IF name = "MIN_SR_FLEX" /\ k > n THEN Must("C21.MIN_SR_FLEX-then-MIN_SR_S", SameArr(r.QD, o.a.stiff))
       ELSE LET w == VScale(RQ(1, Divider(name, k, n)), c) IN Failing(<<
              <<"C21." \o name, \A i \in 1..n : Within(QD[i][i], w[i], RMul(Eps(4), RAbs(w[i])))>>,
              <<"C21." \o name \o "-off-diagonal", \A i, j \in 1..n : i # j => RSign(QD[i][j]) = 0>>,
              <<"C21." \o name \o "-type", r.QD.ty = "f">> >>)

(* ---------------------- optimized diagonal matrices ------------------------ *)
(* all roots of the polynomial p (constant term first) in the open disk of   *)
(* radius rho: Schur-Cohn recursion                                          *)
SchurStable(p, rho) ==
  LET n == Len(p) - 1
      q == Vn(n + 1, LAMBDA i : RMul(p[i], RPow(rho, i - 1)))
      step(acc, k) ==
        IF ~acc[2] THEN acc ELSE
        LET a == acc[1] m == Len(a) IN
        IF ~RLt(RAbs(a[1]), RAbs(a[m])) THEN <<a, FALSE>>
        ELSE LET top == RMaxAbs(a)
             IN <<Vn(m - 1, LAMBDA i : RRound(RDiv(RSub(RMul(a[m], a[i + 1]), RMul(a[1], a[m - i])), RMul(top, top)), 300)), TRUE>>
  IN FoldLeft(step, <<q, TRUE>>, [k \in 1..n |-> k])[2]
(* spectral radius announced with the tables *)
Announced ==
  (<<"MIN3", "LEGENDRE", "LOBATTO">> :> (9 :> RQ(154787, 1000000) @@ 7 :> RQ(97936, 1000000) @@ 5 :> RQ(51355, 1000000) @@ 4 :> RQ(38159, 1000000) @@ 3 :> RQ(13594, 1000000) @@ 2 :> RQ(1, 1000000000))) @@
  (<<"MIN3", "LEGENDRE", "RADAU-RIGHT">> :> (9 :> RQ(151786, 1000000) @@ 7 :> RQ(116401, 1000000) @@ 5 :> RQ(78336, 1000000) @@ 4 :> RQ(57500, 1000000) @@ 3 :> RQ(38745, 1000000) @@ 2 :> RQ(20857, 1000000))) @@
  (<<"MIN3", "EQUID", "RADAU-RIGHT">> :> (9 :> RQ(251821, 1000000) @@ 7 :> RQ(184583, 1000000) @@ 5 :> RQ(118442, 1000000) @@ 4 :> RQ(84405, 1000000) @@ 3 :> RQ(50464, 1000000) @@ 2 :> RQ(21481, 1000000))) @@
  (<<"MIN_VDHS", "LEGENDRE", "RADAU-RIGHT">> :> (3 :> RQ(5, 1000) @@ 4 :> RQ(25, 1000)))
Optimized(e) ==
  LET name == e.a.name n == e.a.n r == e.r q == e.a.qt key == <<name, e.a.nt, q>>
      left == HasLeft(q)
      tab == name \in {"MIN3", "MIN_VDHS"} IN
  IF tab /\ (key \notin DOMAIN Announced \/ n \notin DOMAIN Announced[key])
  THEN Refused("C22." \o name \o "-no-table", e, {"NotImplementedError"})
  ELSE IF r.exc # "" THEN {"C22." \o name \o "-raises"}
  ELSE IF ~IsMat(r.QD, n, n) THEN {"C22." \o name \o "-shape"}
  ELSE LET Q == MatOf(e.a.Q) QD == MatOf(r.QD) d == DiagOf(QD)
           s == IF left THEN 1 ELSE 0
           stiff == Mn(n - s, n - s, LAMBDA i, j : RSub(IF i = j THEN R1 ELSE R0, RDiv(Q[i + s][j + s], d[i + s])))
           pos == \A i \in (1 + s)..n : RSign(d[i]) = 1
           nil(K, tol) == LET p == CharPoly(K) IN \A i \in 1..(Len(p) - 1) : RLe(RAbs(p[i]), tol)
       IN Must("C22." \o name \o "-diagonal", \A i, j \in 1..n : i # j => RSign(QD[i][j]) = 0) \cup
          CASE name = "MIN_SR_S" -> Failing(<<
                 <<"C22.MIN_SR_S-positive", pos>>,
                 <<"C22.MIN_SR_S-increasing", \A i \in 2..n : RLt(d[i - 1], d[i])>>,
                 <<"C22.MIN_SR_S-first-zero", left => RSign(d[1]) = 0>>,
                 <<"C22.MIN_SR_S-nilpotent", ~pos \/ nil(stiff, RMul(Eps(64), RPow(RI(8), n - 1)))>> >>)
            [] name = "MIN_SR_NS" -> Failing(<<
                 <<"C22.MIN_SR_NS-nilpotent", nil(MSub(Q, QD), Eps(64 * n * n))>> >>)
            [] name = "MIN" -> Failing(<<
                 <<"C22.MIN-invertible", \A i \in 1..n : RSign(d[i]) # 0>>,
                 <<"C22.MIN-contractive", (\E i \in 1..n : RSign(d[i]) = 0) \/ SchurStable(CharPoly(stiff), R1)>> >>)
            [] tab -> Failing(<<
                 <<"C22." \o name \o "-positive", pos /\ (left => RSign(d[1]) = 0)>>,
                 <<"C22." \o name \o "-spectral-radius", ~pos \/ SchurStable(CharPoly(stiff), Announced[key][n])>> >>)

(* ---------------------------- several sweeps ------------------------------- *)
(* a: single (one name, not a list), names, n (sweeps; 0: not given; -1: bad  *)
(* value), known (all names are registered), form, dTau; refs[i][k]: matrix   *)
(* of names[i] for index k (index Len: no sweep index) in the requested form  *)
MClose(A, B) == MWithin(A, B, RMul(Eps(8), MMaxAbs(B)))
SweepName(names, k) == IF k <= Len(names) THEN k ELSE Len(names)
MultiOk(a) == /\ Len(a.names) > 0 /\ a.n >= 0 /\ a.known /\ a.form \in {"Z2N", "N2N"}
              /\ (a.single \/ a.n = 0 \/ a.n >= Len(a.names))
Multi(e) ==
  LET a == e.a r == e.r IN
  IF ~MultiOk(a) THEN Must("C23.accepted", r.exc # "")
                      \cup (IF Len(a.names) > 0 /\ ~a.known /\ a.n = 0 THEN Refused("C23.unknown-name", e, {"ValueError"}) ELSE {})
  ELSE IF r.exc # "" THEN {"C23.raises"}
  ELSE LET plain == a.single /\ a.n = 0
           ns == IF a.n > 0 THEN a.n ELSE Len(a.names)
           m == r.size
           out == Cube(r.QD)
           want(k) == a.refs[SweepName(a.names, k)][k]
       IN IF plain THEN Must("C23.single", SameArr(r.QD, a.plain)) \cup Must("C23.dTau", a.dTau = (r.parts = 2) /\ (a.dTau => SameArr(r.dTau, a.dTauRef)))
          ELSE IF r.QD.sh # <<ns, m, m>> THEN {"C23.shape"}
          ELSE UNION {Must("C23.sweep", MClose(out[k], MatOf(want(k)))) : k \in 1..ns}
               \cup Must("C23.dTau", a.dTau = (r.parts = 2) /\ (a.dTau => SameArr(r.dTau, a.dTauRef)))
               \cup Must("C23.sweeps-shared", r.own)
(* genCoeffs of one generator for a list of indices *)
MultiGen(e) ==
  LET a == e.a r == e.r IN
  IF a.form \notin {"Z2N", "N2N"} THEN Refused("C23.form", e, {"ValueError"})
  ELSE IF r.exc # "" THEN {"C23.list-raises"}
  ELSE LET ns == Len(a.refs) m == r.size IN
       IF r.QD.sh # <<ns, m, m>> THEN {"C23.list-shape"}
       ELSE LET out == Cube(r.QD) IN UNION {Must("C23.list", MClose(out[k], MatOf(a.refs[k]))) : k \in 1..ns}
            \cup Must("C23.list-shared", r.own)
            \cup Must("C23.list-dTau", a.dTau = (r.parts = 2) /\ (a.dTau => SameArr(r.dTau, a.dTauRef)))
=============================================================================
