------------------------------ MODULE MCLagrange ------------------------------
(***************************************************************************)
(* Interpolation, design level.  Points are given one after the other, in  *)
(* any order, repeated or not; on every reachable sequence of points the    *)
(* operators the recorded matrices are compared with must have the laws     *)
(* that make them interpolation, integration and differentiation.           *)
(* GenSpec: histories of calls on several objects, replayed on the code.    *)
(***************************************************************************)
EXTENDS Quad, CSV, Json, IOUtils
CONSTANTS Grid,          \* points, in quarters, from -1/4 on
          MaxPts, MaxObjs, MaxSteps

VARIABLES pts, log
vars == <<pts, log>>
Init == pts = <<>> /\ log = <<>>
AddPoint == Len(pts) < MaxPts /\ \E g \in Grid : pts' = Append(pts, g) /\ UNCHANGED log
Spec == Init /\ [][AddPoint]_vars

Times == <<RQ(-1, 3), R0, RQ(1, 4), RQ(2, 7), Half, R1, RQ(9, 5)>>
P == TLCEval([i \in 1..Len(pts) |-> RQ(pts[i] - 1, 4)])
X == XPoints(P)
Mono(x, k) == Vn(Len(x), LAMBDA j : RPow(x[j], k))
Strategies == {"USE_LEFT", "USE_RIGHT"}

Points ==
  /\ \A i, j \in 1..Len(X) : i # j => X[i] # X[j]
  /\ Range(X) = Range(P)
  /\ IsDup(P) => \A i \in 1..(Len(X) - 1) : RLt(X[i], X[i + 1])
  /\ ~IsDup(P) => X = P
Interpolation ==
  pts = <<>> \/ LET x == X n == Len(x) w == BaryWeights(x) IN
  \A m \in 1..Len(Times) :
    LET t == Times[m] l == BasisAt(x, w, t) IN
    /\ VWithin(l, BasisAtDef(x, t), RPow(R2, -300))
    /\ Within(RSum(l), R1, RPow(R2, -300))
    /\ \A k \in 0..(n - 1) : Within(RDot(l, Mono(x, k)), RPow(t, k), RPow(R2, -280))
    \* shifting and scaling the points and the time changes nothing
    /\ LET f(y) == RAdd(RMul(RI(-3), y), RQ(5, 7)) y == Vn(n, LAMBDA j : f(x[j]))
       IN VWithin(BasisAt(y, BaryWeights(y), f(t)), l, RPow(R2, -280))
    \* the interpolant of values given on all points takes, with any strategy, the value of one occurrence
    /\ \A s \in Strategies :
         LET full == Spread(P, x, s, l)
             vals == Vn(Len(P), LAMBDA i : RI(i * i + 1))
             kept == Vn(n, LAMBDA k : vals[Column(P, x, k, s)])
         IN /\ RDot(full, vals) = RDot(l, kept)
            /\ \A k \in 1..n : P[Column(P, x, k, s)] = x[k]
            /\ \A i \in 1..Len(P) : (\A k \in 1..n : Column(P, x, k, s) # i) => RSign(full[i]) = 0
            /\ \A i, j \in 1..Len(P) : P[i] = P[j] /\ i < j =>
                 \A k \in 1..n : Column(P, x, k, s) # (IF s = "USE_LEFT" THEN j ELSE i)
Integration ==
  pts = <<>> \/ LET x == X n == Len(x) pr == Prims(BasisPolys(x))
                    iv(a, b) == BasisInt(pr, a, b) IN
  \A i, j \in 1..Len(Times) :
    LET a == Times[i] b == Times[j] l == iv(a, b) IN
    /\ \A k \in 0..(n - 1) : Within(RDot(l, Mono(x, k)), RDiv(RSub(RPow(b, k + 1), RPow(a, k + 1)), RI(k + 1)), RPow(R2, -280))
    /\ VWithin(VAdd(l, iv(b, a)), Vn(n, LAMBDA m : R0), RPow(R2, -280))
    /\ VWithin(VAdd(l, iv(b, Times[3])), iv(a, Times[3]), RPow(R2, -280))
Differentiation ==
  pts = <<>> \/ LET x == X n == Len(x)
                    d1 == Vn(n, LAMBDA j : PolyDeriv(BasisPolys(x)[j]))
                    D == BasisD(d1, x)
                    D2 == BasisD(Vn(n, LAMBDA j : PolyDeriv(d1[j])), x)
                    zero == Vn(n, LAMBDA m : R0) IN
  /\ \A k \in 0..(n - 1) :
       /\ VWithin(MVec(D, Mono(x, k)), IF k = 0 THEN zero ELSE VScale(RI(k), Mono(x, k - 1)), RPow(R2, -280))
       /\ VWithin(MVec(D2, Mono(x, k)), IF k < 2 THEN zero ELSE VScale(RI(k * (k - 1)), Mono(x, k - 2)), RPow(R2, -280))
  /\ MWithin(RMatMul(D, D), D2, RPow(R2, -280))
(* the weights have the documented normalisations; scaling keeps the matrices *)
Weights ==
  pts = <<>> \/ LET x == X n == Len(x) w == BaryWeights(x)
                    f == VScale(RQ(-7, 3), w) IN
  /\ Proportional(w, w, n) /\ Proportional(VScale(RQ(1, 9), w), w, n) /\ ~Proportional(f, w, n)
  /\ \A m \in 1..Len(Times) : VWithin(BasisAt(x, w, Times[m]),
       LET t == Times[m] hit == {j \in 1..n : x[j] = t} IN
       IF hit # {} THEN Vn(n, LAMBDA j : IF j \in hit THEN R1 ELSE R0)
       ELSE LET s == RSum(Vn(n, LAMBDA j : RDiv(f[j], RSub(t, x[j]))))
            IN Vn(n, LAMBDA j : RDiv(RDiv(f[j], RSub(t, x[j])), s)), RPow(R2, -280))
(* stencils of the local interpolation: as many as asked, none further than another candidate *)
Stencil ==
  IsDup(P) \/ \A p \in 1..Len(P) : \A m \in 1..Len(Times) : \A per \in {R0, RI(3)} :
    LET cand == Candidates(P, Times[m], per) st == Stencils(cand, p, R0) IN
    /\ st # {}
    /\ \A s \in st :
         /\ Len(s) = p
         /\ \A i \in 1..p : \A c \in 1..Len(cand) : (\A j \in 1..p : s[j] # cand[c]) => RLe(RAbs(s[i][2]), RAbs(cand[c][2]))
         /\ DistinctIdx(s) =>
              LET y == [k \in 1..p |-> s[k][2]] l == BasisAt(y, BaryWeights(y), R0) IN
              \A k \in 0..(p - 1) : Within(RDot(l, Vn(p, LAMBDA j : RPow(RAdd(Times[m], y[j]), k))), RPow(Times[m], k), RPow(R2, -280))

(* ------------------------------ histories -------------------------------- *)
(* log: <<operation, object, parameters>>; an object is known by the number   *)
(* of its creation                                                            *)
Objs == Cardinality({i \in 1..Len(log) : log[i].op = "new"})
Ev(op, o, k, s, d) == [op |-> op, o |-> o, k |-> k, s |-> s, d |-> d]
GenNext ==
  /\ Len(log) < MaxSteps /\ UNCHANGED pts
  /\ \E u \in {RandomElement(1..12)} :
       \E o \in {IF Objs = 0 THEN 0 ELSE RandomElement(1..Objs)}, k \in {RandomElement(1..6)},
          s \in {RandomElement(1..4)}, d \in {RandomElement({TRUE, FALSE})} :
         log' = Append(log, Ev(IF Objs = 0 \/ (u = 1 /\ Objs < MaxObjs) THEN "new"
                               ELSE IF u <= 3 THEN "interp" ELSE IF u <= 5 THEN "integ" ELSE IF u <= 7 THEN "deriv"
                               ELSE IF u <= 9 THEN "call" ELSE IF u = 10 THEN "write" ELSE "again", o, k, s, d))
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
