----------------------------- MODULE BigRatTest -----------------------------
(* The same assertions hold for the definitions and for their Java          *)
(* implementation; small numbers only, so that TLC's integers suffice.      *)
EXTENDS BigRat, Integers, Sequences, TLC
S == {RQ(n, d) : n \in -7..7, d \in 1..5}
V(x, n, d) == x = RQ(n, d)
ASSUME \A x \in S : RAdd(x, RNeg(x)) = RI(0) /\ RSub(x, x) = RI(0)
ASSUME \A x, y \in S :
  /\ RAdd(x, y) = RAdd(y, x) /\ RMul(x, y) = RMul(y, x)
  /\ RSub(RAdd(x, y), y) = x
  /\ (RSign(y) # 0 => RMul(RDiv(x, y), y) = x)
  /\ (RLt(x, y) <=> RSign(RSub(x, y)) = -1) /\ (RLe(x, y) <=> RSign(RSub(x, y)) # 1)
  /\ RMax(x, y) \in {x, y} /\ RLe(x, RMax(x, y)) /\ RLe(y, RMax(x, y))
  /\ RMin(x, y) \in {x, y} /\ RLe(RMin(x, y), x) /\ RLe(RMin(x, y), y)
ASSUME \A n \in -7..7, d \in {-5, -3, -1, 1, 2, 4, 6} : \A m \in -4..4, e \in {1, 2, 3, 4} :
  /\ RAdd(RQ(n, d), RQ(m, e)) = RQ(n * e + m * d, d * e)
  /\ RMul(RQ(n, d), RQ(m, e)) = RQ(n * m, d * e)
  /\ (RLt(RQ(n, d), RQ(m, e)) <=> (IF d > 0 THEN n * e < m * d ELSE n * e > m * d))
ASSUME \A x \in S : RAbs(x) = (IF RSign(x) < 0 THEN RNeg(x) ELSE x)
ASSUME \A x \in S : RPow(x, 0) = RI(1) /\ RPow(x, 3) = RMul(x, RMul(x, x))
ASSUME \A x \in S : RSign(x) # 0 => RPow(x, -2) = RDiv(RI(1), RMul(x, x))
ASSUME \A x \in S : LET e == RSub(RRound(x, 12), x) IN RLe(RAbs(e), RMul(RAbs(x), RQ(1, 2048)))
ASSUME RSum(<<RQ(1,2), RQ(1,3), RQ(1,6)>>) = RI(1) /\ RSum(<<>>) = RI(0)
ASSUME RProd(<<RQ(1,2), RQ(2,3), RQ(3,5)>>) = RQ(1,5)
ASSUME RDot(<<RQ(1,2), RI(0), RI(3)>>, <<RI(4), RI(5), RQ(-1,3)>>) = RI(1)
ASSUME RMaxAbs(<<RQ(1,2), RI(-3), RI(2)>>) = RI(3)
ASSUME \A n \in -9..9, d \in 1..4 : RToInt(RFloor(RQ(n, d))) = n \div d
ASSUME \A n \in 0..20 : LET r == RSqrtFloor(RI(n), 3) s == RAdd(r, RQ(1, 8))
                        IN RLe(RMul(r, r), RI(n)) /\ RLt(RI(n), RMul(s, s)) /\ RToInt(RFloor(RMul(r, RI(8)))) >= 0
ASSUME RLimb(0, 5, -1) = RQ(5, 2) /\ RLimb(0, -3, 2) = RI(-12) /\ RLimb(1, 1, 0) = RI(134217729)
ASSUME RVec(<<0, 5, -1, 0, 0, 0, 0, -3, 2>>) = <<RQ(5,2), RI(0), RI(-12)>>
A2 == <<<<RI(1), RQ(1,2)>>, <<RI(0), RI(3)>>>>
B2 == <<<<RI(2), RI(0), RI(1)>>, <<RI(4), RI(1), RI(-1)>>>>
ASSUME RMatMul(A2, B2) = <<<<RI(4), RQ(1,2), RQ(1,2)>>, <<RI(12), RI(3), RI(-3)>>>>
ASSUME RPolyMul(<<RI(1), RI(2)>>, <<RI(-1), RI(0), RI(3)>>) = <<RI(-1), RI(-2), RI(3), RI(6)>>
ASSUME RPolyEval(<<RI(-1), RI(-2), RI(3), RI(6)>>, RQ(1,2)) = RQ(-1, 2)
ASSUME PrintT(<<"BigRatTest", "ok">>)
VARIABLE x
Init == x = RQ(1, 3)
Next == x' = RMul(x, RQ(1, 2)) /\ RLt(RQ(1, 200), x)
Inv == RLe(x, RQ(1, 3))
=============================================================================
