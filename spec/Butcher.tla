------------------------------- MODULE Butcher -------------------------------
(***************************************************************************)
(* Runge-Kutta methods: rooted trees and order conditions (one and two     *)
(* colours), structure and published coefficients of the documented        *)
(* schemes, padding, stability.                                            *)
(***************************************************************************)
EXTENDS Colloc

(* ----------------------------- rooted trees ------------------------------ *)
(* A tree is [ord, col, ch, gam]: order, colour of the root, children       *)
(* (indices of earlier trees, non increasing), density.                    *)
RECURSIVE Multisets(_, _, _)
Multisets(tot, mx, ords) ==
  IF tot = 0 THEN {<<>>}
  ELSE UNION {{<<i>> \o s : s \in Multisets(tot - ords[i], i, ords)} : i \in {j \in 1..mx : ords[j] <= tot}}
BuildTrees(n, colours) ==
  FoldLeft(LAMBDA ts, k :
     LET ords == [i \in 1..Len(ts) |-> ts[i].ord]
         ms == SetToSeq(Multisets(k - 1, Len(ts), ords))
         new == [i \in 1..Len(ms) |->
                   [ord |-> k, ch |-> ms[i],
                    gam |-> FoldLeft(LAMBDA a, c : a * ts[c].gam, k, ms[i])]]
         cs == SetToSeq(colours)
     IN ts \o FoldLeft(LAMBDA acc, c : acc \o [i \in 1..Len(new) |->
                          [ord |-> k, col |-> c, ch |-> new[i].ch, gam |-> new[i].gam]], <<>>, cs),
     <<>>, [k \in 1..n |-> k])
Trees1 == TLCEval(BuildTrees(6, {1}))
Trees2 == TLCEval(BuildTrees(5, {1, 2}))
NumTrees(ts, k) == Cardinality({i \in 1..Len(ts) : ts[i].ord = k})

(* residuals b . g(t) - 1 / gamma(t) for coloured matrices As and weights bs *)
Residuals(ts, As, bs) ==
  LET s == Len(As[1])
      step(acc, k) ==               \* acc = sequence of <<g(t), A g(t)>>
        LET t == ts[k]
            g == FoldLeft(LAMBDA v, c : VMul(v, acc[c][2]), Ones(s), t.ch)
            gr == VRound(g, 200)
        IN Append(acc, <<gr, VRound(MVec(As[t.col], gr), 200)>>)
      gs == FoldLeft(step, <<>>, [k \in 1..Len(ts) |-> k])
  IN Vn(Len(ts), LAMBDA k : RSub(RDot(bs[ts[k].col], gs[k][1]), RQ(1, ts[k].gam)))
(* largest p <= n such that all conditions up to order p hold *)
FormalOrder(ts, res, n, tol) ==
  LET bad == {ts[k].ord : k \in {j \in 1..Len(ts) : RLt(tol, RAbs(res[j]))}}
  IN CHOOSE p \in 0..n : (\A q \in 1..p : q \notin bad) /\ (p = n \/ (p + 1) \in bad)

(* --------------------------- documented schemes -------------------------- *)
Explicit == {"FE", "RK21", "RK2", "HEUN2", "RK32", "RK33", "RK53", "RK4", "RK4_38", "RK65", "CashKarp", "ARK548L2SAERK",
             "ARK548L2SAERK2", "ARK324L2SAERK", "ARK222ERK", "ARK443ERK", "ARK343ERK", "ARK4ERK"}
SinglyDiag == {"BE", "MidPoint", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "SDIRK54", "EDIRK43"}
ExplicitFirst == {"TRAP", "ESDIRK43", "ESDIRK53", "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK",
                  "ARK222EDIRK", "ARK443ESDIRK", "ARK343ESDIRK"}
OtherDiag == {"EDIRK4", "ARK4EDIRK"}
StifflyAccurate == {"BE", "TRAP", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "SDIRK54", "EDIRK4", "ESDIRK43", "ESDIRK53",
                    "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK",
                    "ARK343ESDIRK", "ARK4EDIRK", "ARK4ERK"}
Schemes == Explicit \cup SinglyDiag \cup ExplicitFirst \cup OtherDiag \cup {"GAUSS_LG"}
Embedded == {"HEUN2", "CashKarp", "EDIRK43", "ESDIRK43", "ESDIRK53", "ARK548L2SAERK", "ARK548L2SAESDIRK",
             "ARK548L2SAESDIRK2", "ARK548L2SAERK2", "ARK324L2SAERK", "ARK324L2SAESDIRK"}
(* coefficients published with ten decimals *)
TenDigits(name) == name \in {"ARK343ESDIRK", "ARK343ERK"}
TableTol(name) == IF TenDigits(name) THEN RQ(1, 1000000000) ELSE Eps(64)
OrderTol(name) == IF TenDigits(name) THEN RQ(3, 1000000000) ELSE Eps(8192)

Row(den, nums) == [i \in 1..Len(nums) |-> RQ(nums[i], den)]
Fr(pairs) == [i \in 1..Len(pairs) |-> RQ(pairs[i][1], pairs[i][2])]
Sqrt2 == RSqrtFloor(R2, 120)
Sqrt3 == RSqrtFloor(RI(3), 120)
LOCAL Irr(a, b, s) == RAdd(a, RMul(b, s))              \* a + b sqrt
G2 == RSub(R1, RMul(Half, Sqrt2))                     \* (2 - sqrt 2) / 2
G2p == RAdd(R1, RMul(Half, Sqrt2))
(* root of x^3 - 3 x^2 + 3/2 x - 1/6 in (0.4, 0.5), by bisection            *)
G3 == LET p == <<RQ(-1, 6), RQ(3, 2), RI(-3), R1>>
          r == FoldLeft(LAMBDA I, k : LET m == RMul(Half, RAdd(I[1], I[2]))
                        IN IF RSign(RPolyEval(p, m)) = RSign(RPolyEval(p, I[1])) THEN <<m, I[2]>> ELSE <<I[1], m>>,
                        <<RQ(2, 5), Half>>, [k \in 1..90 |-> k])
      IN r[1]
B31 == RAdd(RAdd(RMul(RQ(-3, 2), RMul(G3, G3)), RMul(RI(4), G3)), RQ(-1, 4))
B32 == RAdd(RSub(RMul(RQ(3, 2), RMul(G3, G3)), RMul(RI(5), G3)), RQ(5, 4))
T3 == RMul(Half, RAdd(R1, G3))
Delta2 == RSub(R1, RDiv(Half, G2))
Pub(A, b, c) == [A |-> A, b |-> b, c |-> c, b2 |-> <<>>]
PubE(A, b, c, b2) == [A |-> A, b |-> b, c |-> c, b2 |-> b2]
Published == TLCEval(
  "FE" :> Pub(<<Row(1, <<0>>)>>, Row(1, <<1>>), Row(1, <<0>>)) @@
  "RK21" :> Pub(<<Row(1, <<0, 0>>), Row(4, <<3, 0>>)>>, Row(3, <<-1, 4>>), Row(4, <<0, 3>>)) @@
  "RK2" :> Pub(<<Row(1, <<0, 0>>), Row(2, <<1, 0>>)>>, Row(1, <<0, 1>>), Row(2, <<0, 1>>)) @@
  "HEUN2" :> PubE(<<Row(1, <<0, 0>>), Row(1, <<1, 0>>)>>, Row(2, <<1, 1>>), Row(1, <<0, 1>>), Row(1, <<1, 0>>)) @@
  "RK32" :> Pub(<<Row(1, <<0, 0, 0>>), Row(3, <<1, 0, 0>>), Row(1, <<0, 1, 0>>)>>, Row(2, <<1, 0, 1>>), Row(3, <<0, 1, 3>>)) @@
  "RK33" :> Pub(<<Row(1, <<0, 0, 0>>), Row(1, <<1, 0, 0>>), Row(4, <<1, 1, 0>>)>>, Row(6, <<1, 1, 4>>), Row(2, <<0, 2, 1>>)) @@
  "RK53" :> Pub(<<Row(1, <<0, 0, 0, 0, 0>>), Row(7, <<1, 0, 0, 0, 0>>), Row(16, <<0, 3, 0, 0, 0>>), Row(3, <<0, 0, 1, 0, 0>>),
                  Row(3, <<0, 0, 0, 2, 0>>)>>, Row(4, <<1, 0, 0, 0, 3>>), Fr(<<<<0, 1>>, <<1, 7>>, <<3, 16>>, <<1, 3>>, <<2, 3>>>>)) @@
  "RK4" :> Pub(<<Row(1, <<0, 0, 0, 0>>), Row(2, <<1, 0, 0, 0>>), Row(2, <<0, 1, 0, 0>>), Row(1, <<0, 0, 1, 0>>)>>,
               Row(6, <<1, 2, 2, 1>>), Row(2, <<0, 1, 1, 2>>)) @@
  "RK4_38" :> Pub(<<Row(1, <<0, 0, 0, 0>>), Row(3, <<1, 0, 0, 0>>), Row(3, <<-1, 3, 0, 0>>), Row(1, <<1, -1, 1, 0>>)>>,
               Row(8, <<1, 3, 3, 1>>), Row(3, <<0, 1, 2, 3>>)) @@
  "RK65" :> Pub(<<Row(1, <<0, 0, 0, 0, 0, 0>>), Row(4, <<1, 0, 0, 0, 0, 0>>), Row(8, <<1, 1, 0, 0, 0, 0>>), Row(2, <<0, 0, 1, 0, 0, 0>>),
                  Row(16, <<3, -6, 6, 9, 0, 0>>), Row(7, <<-3, 8, 6, -12, 8, 0>>)>>,
               Row(90, <<7, 0, 32, 12, 32, 7>>), Row(4, <<0, 1, 1, 2, 3, 4>>)) @@
  "CashKarp" :> PubE(<<Row(1, <<0, 0, 0, 0, 0, 0>>), Row(5, <<1, 0, 0, 0, 0, 0>>), Row(40, <<3, 9, 0, 0, 0, 0>>),
                  Row(10, <<3, -9, 12, 0, 0, 0>>), Row(54, <<-11, 135, -140, 70, 0, 0>>),
                  Fr(<<<<1631, 55296>>, <<175, 512>>, <<575, 13824>>, <<44275, 110592>>, <<253, 4096>>, <<0, 1>>>>)>>,
               Fr(<<<<37, 378>>, <<0, 1>>, <<250, 621>>, <<125, 594>>, <<0, 1>>, <<512, 1771>>>>), Row(40, <<0, 8, 12, 24, 40, 35>>),
               Fr(<<<<2825, 27648>>, <<0, 1>>, <<18575, 48384>>, <<13525, 55296>>, <<277, 14336>>, <<1, 4>>>>)) @@
  "BE" :> Pub(<<Row(1, <<1>>)>>, Row(1, <<1>>), Row(1, <<1>>)) @@
  "MidPoint" :> Pub(<<Row(2, <<1>>)>>, Row(1, <<1>>), Row(2, <<1>>)) @@
  "TRAP" :> Pub(<<Row(1, <<0, 0>>), Row(2, <<1, 1>>)>>, Row(2, <<1, 1>>), Row(1, <<0, 1>>)) @@
  "SDIRK2" :> Pub(<<<<G2, R0>>, <<RSub(R1, G2), G2>>>>, <<RSub(R1, G2), G2>>, <<G2, R1>>) @@
  "SDIRK2_2" :> Pub(<<<<G2p, R0>>, <<RSub(R1, G2p), G2p>>>>, <<RSub(R1, G2p), G2p>>, <<G2p, R1>>) @@
  "SDIRK3" :> Pub(<<<<G3, R0, R0>>, <<RSub(T3, G3), G3, R0>>, <<B31, B32, G3>>>>, <<B31, B32, G3>>, <<G3, T3, R1>>) @@
  "DIRK43" :> Pub(<<Row(2, <<1, 0, 0, 0>>), Row(6, <<1, 3, 0, 0>>), Row(2, <<-1, 1, 1, 0>>), Row(2, <<3, -3, 1, 1>>)>>,
               Row(2, <<3, -3, 1, 1>>), Row(6, <<3, 4, 3, 6>>)) @@
  "GAUSS_LG" :> Pub(<<<<RQ(1, 4), Irr(RQ(1, 4), RQ(-1, 6), Sqrt3)>>, <<Irr(RQ(1, 4), RQ(1, 6), Sqrt3), RQ(1, 4)>>>>, Row(2, <<1, 1>>),
               <<Irr(Half, RQ(-1, 6), Sqrt3), Irr(Half, RQ(1, 6), Sqrt3)>>) @@
  "SDIRK54" :> Pub(<<Row(4, <<1, 0, 0, 0, 0>>), Row(4, <<2, 1, 0, 0, 0>>), Row(100, <<34, -4, 25, 0, 0>>),
                  Fr(<<<<371, 1360>>, <<-137, 2720>>, <<15, 544>>, <<1, 4>>, <<0, 1>>>>), Row(48, <<50, -49, 375, -340, 12>>)>>,
               Row(48, <<50, -49, 375, -340, 12>>), Row(20, <<5, 15, 11, 10, 20>>)) @@
  "EDIRK43" :> PubE(<<Row(6, <<5, 0, 0, 0>>), Row(78, <<-45, 65, 0, 0>>), Row(54, <<215, -260, 45, 0>>),
                  Fr(<<<<4007, 6075>>, <<-31031, 24300>>, <<-133, 2700>>, <<5, 6>>>>)>>,
               Fr(<<<<61, 150>>, <<2197, 2100>>, <<19, 100>>, <<-9, 14>>>>), Fr(<<<<5, 6>>, <<10, 39>>, <<0, 1>>, <<1, 6>>>>),
               Row(300, <<128, 169, 3, 0>>)) @@
  "EDIRK4" :> Pub(<<Row(1, <<0, 0, 0, 0>>), Row(4, <<3, 3, 0, 0>>), Row(675, <<447, -357, 855, 0>>), Row(42, <<13, 84, -125, 70>>)>>,
               Row(42, <<13, 84, -125, 70>>), Row(10, <<0, 15, 14, 10>>)) @@
  "ARK222EDIRK" :> Pub(<<<<R0, R0, R0>>, <<R0, G2, R0>>, <<R0, RSub(R1, G2), G2>>>>, <<R0, RSub(R1, G2), G2>>, <<R0, G2, R1>>) @@
  "ARK222ERK" :> Pub(<<<<R0, R0, R0>>, <<G2, R0, R0>>, <<Delta2, RSub(R1, Delta2), R0>>>>, <<Delta2, RSub(R1, Delta2), R0>>, <<R0, G2, R1>>) @@
  "ARK443ESDIRK" :> Pub(<<Row(1, <<0, 0, 0, 0, 0>>), Row(2, <<0, 1, 0, 0, 0>>), Row(6, <<0, 1, 3, 0, 0>>), Row(2, <<0, -1, 1, 1, 0>>),
                  Row(2, <<0, 3, -3, 1, 1>>)>>, Row(2, <<0, 3, -3, 1, 1>>), Row(6, <<0, 3, 4, 3, 6>>)) @@
  "ARK443ERK" :> Pub(<<Row(1, <<0, 0, 0, 0, 0>>), Row(2, <<1, 0, 0, 0, 0>>), Row(18, <<11, 1, 0, 0, 0>>), Row(6, <<5, -5, 3, 0, 0>>),
                  Row(4, <<1, 7, 3, -7, 0>>)>>, Row(4, <<1, 7, 3, -7, 0>>), Row(6, <<0, 3, 4, 3, 6>>)) @@
  "ARK343ESDIRK" :> Pub(<<<<R0, R0, R0, R0>>, <<R0, G3, R0, R0>>, <<R0, RSub(T3, G3), G3, R0>>, <<R0, B31, B32, G3>>>>,
               <<R0, B31, B32, G3>>, <<R0, G3, T3, R1>>) @@
  "ARK343ERK" :> Pub(<<<<R0, R0, R0, R0>>, <<G3, R0, R0, R0>>, <<RQ(321278886, 1000000000), RQ(396654375, 1000000000), R0, R0>>,
                  <<RQ(-105858296, 1000000000), RQ(552929148, 1000000000), RQ(552929148, 1000000000), R0>>>>,
               <<R0, B31, B32, G3>>, <<R0, G3, T3, R1>>) @@
  "ARK4EDIRK" :> Pub(<<Row(1, <<0, 0, 0, 0, 0, 0, 0>>), Row(6, <<-1, 3, 0, 0, 0, 0, 0>>), Row(6, <<1, -2, 3, 0, 0, 0, 0>>),
                  Row(8, <<3, -3, 0, 4, 0, 0, 0>>), Row(8, <<1, 0, 3, -4, 4, 0, 0>>), Row(2, <<-1, 0, 6, -6, 2, 1, 0>>),
                  Row(6, <<1, 0, 0, 0, 4, -3, 4>>)>>, Row(6, <<1, 0, 0, 0, 4, -3, 4>>), Row(6, <<0, 2, 2, 3, 3, 6, 6>>)) @@
  "ARK4ERK" :> Pub(<<Row(1, <<0, 0, 0, 0, 0, 0, 0>>), Row(3, <<1, 0, 0, 0, 0, 0, 0>>), Row(6, <<1, 1, 0, 0, 0, 0, 0>>),
                  Row(8, <<1, 0, 3, 0, 0, 0, 0>>), Row(8, <<1, 0, 3, 0, 0, 0, 0>>), Row(2, <<1, 0, -3, 0, 4, 0, 0>>),
                  Row(6, <<1, 0, 0, 0, 4, 1, 0>>)>>, Row(6, <<1, 0, 0, 0, 4, 1, 0>>), Row(6, <<0, 2, 2, 3, 3, 6, 6>>)))

(* ------------------------------- verdicts -------------------------------- *)
TableShape(r) == LET s == r.b.sh[1] IN Len(r.b.sh) = 1 /\ IsVec(r.b, s) /\ IsVec(r.c, s) /\ IsMat(r.A, s, s)
                    /\ (r.b2.sh = <<-1>> \/ IsVec(r.b2, s))
RkOrder(e) ==
  LET r == e.r name == e.a.name IN
  IF r.exc # "" THEN {"C14.raises"}
  ELSE IF ~TableShape(r) THEN {"C14.shape"}
  ELSE LET A == MatOf(r.A)
           f(b) == FormalOrder(Trees1, Residuals(Trees1, <<A>>, <<b>>), 6, OrderTol(name))
           p == f(VecOf(r.b))
       IN Must("C14.order-declared-" \o ToString(r.order) \o "-is-" \o ToString(p), p = r.order)
          \cup Must("C14.embedded-available", (name \in Schemes) => ((name \in Embedded) <=> r.b2.sh # <<-1>>))
          \cup (IF r.b2.sh = <<-1>> THEN Must("C14.embedded-refused", r.embExc = "NotImplementedError")
                ELSE LET q == f(VecOf(r.b2))
                     IN Must("C14.embedded-raises", r.embExc = "")
                        \cup Must("C14.embedded-declared-" \o ToString(r.orderEmb) \o "-is-" \o ToString(q), r.orderEmb <= q))

StrictlyLower(A) == \A i \in 1..Len(A) : \A j \in i..Len(A) : RSign(A[i][j]) = 0
Lower(A) == \A i \in 1..Len(A) : \A j \in (i + 1)..Len(A) : RSign(A[i][j]) = 0
Single(A, i0, tol) == /\ RSign(A[i0][i0]) = 1
                      /\ \A i \in i0..Len(A) : Within(A[i][i], A[i0][i0], tol)
RkTable(e) ==
  LET r == e.r name == e.a.name IN
  IF r.exc # "" THEN {"C15.raises"}
  ELSE IF ~TableShape(r) THEN {"C15.shape"}
  ELSE LET A == MatOf(r.A) b == VecOf(r.b) c == VecOf(r.c) s == Len(b) tol == TableTol(name)
           b2 == VecOf(r.b2)
       IN Failing(<<
         <<"C15.row-sums", \A i \in 1..s : Within(RSum(A[i]), c[i], RMul(tol, RAdd(R1, VAbsSum(A[i]))))>>,
         <<"C15.weights", Within(RSum(b), R1, RMul(tol, VAbsSum(b)))>>,
         <<"C15.embedded-weights", b2 = <<>> \/ Within(RSum(b2), R1, RMul(tol, VAbsSum(b2)))>>,
         <<"C15.explicit", name \in Explicit => StrictlyLower(A)>>,
         <<"C15.diagonally-implicit", name \in (SinglyDiag \cup ExplicitFirst \cup OtherDiag) => Lower(A)>>,
         <<"C15.singly-diagonal", name \in SinglyDiag => Single(A, 1, tol)>>,
         <<"C15.explicit-first-stage", name \in (ExplicitFirst \cup OtherDiag) => RSign(A[1][1]) = 0>>,
         <<"C15.singly-diagonal-after-first", name \in ExplicitFirst => Single(A, 2, tol)>>,
         <<"C15.stiffly-accurate", name \in StifflyAccurate => VWithin(A[s], b, tol) /\ Within(c[s], R1, tol)>>,
         <<"C15.published", name \in DOMAIN Published =>
              LET P == Published[name] t == TableTol(name)
              IN MWithin(A, P.A, RMul(t, RI(4))) /\ VWithin(b, P.b, RMul(t, RI(4))) /\ VWithin(c, P.c, RMul(t, RI(4)))
                 /\ VWithin(b2, P.b2, RMul(t, RI(4)))>>,
         <<"C15.attributes", SameArr(r.nodes, r.c) /\ SameArr(r.weights, r.b) /\ SameArr(r.Q, r.A)>> >>)

(* additive pairs: first explicit, second diagonally implicit *)
PairOrder == ("ARK548L2SA" :> 5) @@ ("ARK548L2SA2" :> 5) @@ ("ARK324L2SA" :> 3) @@ ("ARK222" :> 2) @@ ("ARK443" :> 3)
             @@ ("ARK343" :> 3) @@ ("ARK4" :> 4)
SameWeights == {"ARK548L2SA", "ARK548L2SA2", "ARK324L2SA", "ARK343"}
RkPair(e) ==
  LET r == e.r name == e.a.pair IN
  IF r.exc # "" THEN {"C16.raises"}
  ELSE IF ~TableShape(r.E) \/ ~TableShape(r.I) \/ r.E.b.sh # r.I.b.sh THEN {"C16.shape"}
  ELSE LET A1 == MatOf(r.E.A) A2 == MatOf(r.I.A) b1 == VecOf(r.E.b) b2 == VecOf(r.I.b)
           tol == IF name = "ARK343" THEN RQ(3, 1000000000) ELSE Eps(8192)
           res == Residuals(Trees2, <<A1, A2>>, <<b1, b2>>)
           p == FormalOrder(Trees2, res, 5, tol)
       IN Failing(<<
         <<"C16.same-nodes", VecOf(r.E.c) = VecOf(r.I.c)>>,
         <<"C16.explicit-part", StrictlyLower(A1)>>,
         <<"C16.implicit-part", Lower(A2) /\ \E i \in 1..Len(A2) : RSign(A2[i][i]) = 1>>,
         <<"C16.same-weights", name \in SameWeights => b1 = b2>>,
         <<"C16.same-embedded-weights", SameArr(r.E.b2, r.I.b2)>>,
         <<"C16.coupling-order-" \o ToString(PairOrder[name]) \o "-is-" \o ToString(p), p >= PairOrder[name]>> >>)

(* ------------------------------- padding ---------------------------------- *)
PadLeft(P) == [A |-> <<<<R0>> \o [j \in 1..Len(P.b) |-> R0]>> \o [i \in 1..Len(P.A) |-> <<R0>> \o P.A[i]],
               b |-> <<R0>> \o P.b, c |-> <<R0>> \o P.c, b2 |-> IF P.b2 = <<>> THEN <<>> ELSE <<R0>> \o P.b2]
PadRight(P) == [A |-> [i \in 1..Len(P.A) |-> Append(P.A[i], R0)] \o <<Append(P.b, R0)>>,
                b |-> Append(P.b, R0), c |-> Append(P.c, R1), b2 |-> IF P.b2 = <<>> THEN <<>> ELSE Append(P.b2, R0)]
Pad(kind, P) == CASE kind = "LEFT" -> PadLeft(P) [] kind = "RIGHT" -> PadRight(P)
                  [] kind = "BOTH" -> PadRight(PadLeft(P)) [] OTHER -> P
AsTable(r) == [A |-> MatOf(r.A), b |-> VecOf(r.b), c |-> VecOf(r.c), b2 |-> VecOf(r.b2)]
RkNew(e) == IF e.r.exc # "" THEN {"C17.raises"} ELSE Must("C17.shape", TableShape(e.r))
Pads == {"LEFT", "RIGHT", "BOTH", ""}
(* o: the event that created the unpadded instance *)
RkPad(o, e) ==
  LET r == e.r IN
  IF e.a.pad \notin Pads THEN Must("C17.padding-accepted", r.exc # "")
  ELSE IF r.exc # "" THEN {"C17.raises"}
  ELSE IF ~TableShape(r) THEN {"C17.shape"}
  ELSE LET T == AsTable(r) W == Pad(e.a.pad, AsTable(o.r)) IN Failing(<<
         <<"C17.matrix", T.A = W.A>>, <<"C17.weights", T.b = W.b>>, <<"C17.nodes", T.c = W.c>>,
         <<"C17.embedded-weights", T.b2 = W.b2>>,
         <<"C17.attributes", SameArr(r.nodes, r.c) /\ SameArr(r.weights, r.b) /\ SameArr(r.Q, r.A)>>,
         <<"C17.order", r.order = o.r.order>> >>)
(* numerical solution of the padded and of the original method *)
RkPadSolve(e) ==
  IF e.r.exc # "" THEN {"C17.solution-raises"}
  ELSE LET u == CVecOf(e.r.u) v == CVecOf(e.r.v)
           big == RMaxAbs(Vn(Len(u), LAMBDA k : CAbs1(u[k])))
       IN Must("C17.solution", Len(u) = Len(v) /\ \A k \in 1..Len(u) : CWithin(u[k], v[k], RMul(Eps(65536), big)))
(* ------------------------------- stability --------------------------------- *)
(* R(z) = 1 + z b (I - z A)^-1 1 *)
StabFun(A, b, z) ==
  LET s == Len(b)
      Re == Mn(s, s, LAMBDA i, j : RSub(IF i = j THEN R1 ELSE R0, RMul(z[1], A[i][j])))
      Im == Mn(s, s, LAMBDA i, j : RNeg(RMul(z[2], A[i][j])))
      k == CSolveBits(Re, Im, Vn(s, LAMBDA i : C1), 300)
      sum == FoldLeft(LAMBDA a, i : CAdd(a, CScale(b[i], k[i])), C0, [i \in 1..s |-> i])
  IN IF k = <<>> THEN <<RI(1000000), R0>> ELSE CAdd(C1, CMul(z, sum))
AStable == {"BE", "MidPoint", "TRAP", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "GAUSS_LG", "SDIRK54", "EDIRK43", "ESDIRK43",
            "ESDIRK53", "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK",
            "ARK343ESDIRK", "ARK4EDIRK"}
LStable == {"BE", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "SDIRK54", "ESDIRK43", "ESDIRK53", "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2",
            "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK", "ARK343ESDIRK"}
UnitAxis == {"MidPoint", "TRAP", "GAUSS_LG"}
ImagPoints == <<RQ(1, 100), RQ(1, 10), RQ(1, 4), RQ(1, 2), RQ(3, 4), R1, RQ(3, 2), R2, RQ(5, 2), RI(3), RI(4), RI(5), RI(7), RI(10),
                RI(14), RI(20), RI(30), RI(50), RI(100), RI(1000), RI(100000)>>
LeftPoints == <<<<RQ(-1, 10), R1>>, <<RI(-1), R0>>, <<RI(-1), RI(3)>>, <<RI(-5), RI(5)>>, <<RI(-20), R1>>, <<RI(-3), RI(-8)>>, <<RI(-1000), RI(10)>>>>
Stability(e) ==
  LET r == e.r coll == e.a.kind = "coll" IN
  IF r.exc # "" THEN {"C35.raises"}
  ELSE LET A == MatOf(r.A) b == VecOf(r.b)
           tol == IF e.a.name \in {"ARK343ESDIRK"} THEN RQ(1, 100000000) ELSE Eps(65536 * (Len(b) + 1))
           mod2(z) == CNorm2(StabFun(A, b, z))
           onAxis == Vn(Len(ImagPoints), LAMBDA k : mod2(<<R0, ImagPoints[k]>>))
           stable == coll \/ e.a.name \in AStable
           vanish == (coll /\ e.a.qt = "RADAU-RIGHT") \/ e.a.name \in LStable
           unit == (coll /\ e.a.qt = "GAUSS") \/ e.a.name \in UnitAxis
       IN Failing(<<
         <<"C35.imaginary-axis", stable => \A k \in 1..Len(ImagPoints) : RLe(onAxis[k], RAdd(R1, tol))>>,
         <<"C35.left-half-plane", stable => \A k \in 1..Len(LeftPoints) : RLe(mod2(LeftPoints[k]), RAdd(R1, tol))>>,
         <<"C35.infinity", vanish => RLe(mod2(<<RI(-1000000000), R0>>), RQ(1, 1000000))>>,
         <<"C35.unit-modulus", unit => \A k \in 1..Len(ImagPoints) : Within(onAxis[k], R1, tol)>> >>)
=============================================================================
