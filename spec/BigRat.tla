------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* A rational is the pair <<num, den>>, den > 0, gcd(num, den) = 1: the    *)
(* definitions below are the meaning of every operator.  TLC's own         *)
(* integers have 32 bits, so spec/java/BigRat.java implements the same     *)
(* operators on unbounded integers (TLC calls the Java method of the same  *)
(* name and arity instead of evaluating the definition).  BigRatTest.tla   *)
(* evaluates the same assertions with and without that implementation.     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

RECURSIVE BRGcd(_, _)
BRGcd(a, b) == IF b = 0 THEN a ELSE BRGcd(b, a % b)
BRAbs(a) == IF a < 0 THEN -a ELSE a
BRNorm(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == BRGcd(BRAbs(n), BRAbs(d))
  IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
RECURSIVE BRPow(_, _)
BRPow(a, k) == IF k = 0 THEN 1 ELSE a * BRPow(a, k - 1)

RI(n)      == <<n, 1>>                       \* integer -> rational
RQ(n, d)   == BRNorm(n, d)                     \* n / d
RAdd(x, y) == BRNorm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(x)    == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == BRNorm(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == BRNorm(x[1] * y[2], x[2] * y[1])
RAbs(x)    == <<BRAbs(x[1]), x[2]>>
RSign(x)   == IF x[1] < 0 THEN -1 ELSE IF x[1] = 0 THEN 0 ELSE 1
RLt(x, y)  == x[1] * y[2] < y[1] * x[2]
RLe(x, y)  == x[1] * y[2] <= y[1] * x[2]
RMax(x, y) == IF RLe(y, x) THEN x ELSE y
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RPow(x, k) == IF k >= 0 THEN <<BRPow(x[1], k), BRPow(x[2], k)>>
                        ELSE BRNorm(BRPow(x[2], -k), BRPow(x[1], -k))

(* Some rational within |x| * 2^(1-bits) of x (the implementation takes the *)
(* nearest dyadic number with that many bits); x itself is one.            *)
RRound(x, bits) == x

RECURSIVE RSum(_)
RSum(s)  == IF s = <<>> THEN RI(0) ELSE RAdd(s[1], RSum(Tail(s)))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN RI(1) ELSE RMul(s[1], RProd(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t) == IF s = <<>> THEN RI(0) ELSE RAdd(RMul(s[1], t[1]), RDot(Tail(s), Tail(t)))
RECURSIVE RMaxAbs(_)
RMaxAbs(s) == IF s = <<>> THEN RI(0) ELSE RMax(RAbs(s[1]), RMaxAbs(Tail(s)))

RFloor(x) == <<x[1] \div x[2], 1>>
RToInt(x) == x[1]
(* the largest multiple r of 2^-bits with r * r <= x *)
RECURSIVE BRSqrt(_, _, _)
BRSqrt(x, step, r) ==
  LET nxt == RAdd(r, step) IN IF RLe(RMul(nxt, nxt), x) THEN BRSqrt(x, step, nxt) ELSE r
RSqrtFloor(x, bits) == BRSqrt(x, RQ(1, BRPow(2, bits)), RI(0))

(* A double m * 2^e recorded as three small integers: m = hi * 2^27 + lo    *)
RLimb(hi, lo, e) ==
  RMul(RI(hi * BRPow(2, 27) + lo), RPow(RI(2), e))
RVec(flat) == [k \in 1..(Len(flat) \div 3) |->
                 RLimb(flat[3*k-2], flat[3*k-1], flat[3*k])]

RMatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    RDot(A[i], [k \in 1..Len(B) |-> B[k][j]])]]

(* polynomials: sequences of coefficients, constant term first *)
RPolyMul(p, q) ==
  [k \in 1..(Len(p) + Len(q) - 1) |->
     RSum([i \in 1..Len(p) |->
             IF k + 1 - i \in 1..Len(q) THEN RMul(p[i], q[k + 1 - i]) ELSE RI(0)])]
RECURSIVE RPolyEval(_, _)
RPolyEval(p, x) == IF p = <<>> THEN RI(0) ELSE RAdd(p[1], RMul(x, RPolyEval(Tail(p), x)))

RDec(x) == ToString(x)                       \* for messages only
=============================================================================
