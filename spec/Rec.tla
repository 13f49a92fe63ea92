-------------------------------- MODULE Rec ---------------------------------
(***************************************************************************)
(* Reading recorded values.  An array is recorded as                       *)
(*   [sh |-> shape, ty |-> "f" | "c" | "i" | "o", d |-> flat limbs of the    *)
(*    real parts, i |-> flat limbs of the imaginary parts]                 *)
(* (sh = <<-1>> when the value was not an array).  A call is recorded as   *)
(* an event [op, h, a, r]: operation, object handle, arguments, result;    *)
(* r.exc is the name of the exception raised, "" if none.                  *)
(***************************************************************************)
EXTENDS Lin, IOUtils

TolDiv == IF "TOLDIV" \in DOMAIN IOEnv THEN atoi(IOEnv.TOLDIV) ELSE 1
(* k units of double rounding; all tolerances of the specification are     *)
(* multiples of this (TOLDIV > 1 tightens them, to measure their slack)    *)
Eps(k) == RDiv(RMul(RI(k), RPow(R2, -52)), RI(TolDiv))

HasShape(a, sh) == a.sh = sh
IsVec(a, n) == a.sh = <<n>>
IsMat(a, n, m) == a.sh = <<n, m>>
VecOf(a) == RVec(a.d)
MatOf(a) ==
  LET v == RVec(a.d) m == a.sh[2]
  IN TLCEval([i \in 1..a.sh[1] |-> SubSeq(v, (i - 1) * m + 1, i * m)])
(* complex vectors: sequences of pairs *)
CVecOf(a) == LET re == RVec(a.d) im == RVec(a.i)
             IN Vn(Len(re), LAMBDA k : <<re[k], IF im = <<>> THEN R0 ELSE im[k]>>)
Cube(a) ==                      \* three dimensional array as sequence of matrices
  LET v == RVec(a.d) n == a.sh[2] m == a.sh[3]
  IN TLCEval([k \in 1..a.sh[1] |-> TLCEval([i \in 1..n |->
       SubSeq(v, ((k - 1) * n + i - 1) * m + 1, ((k - 1) * n + i) * m)])])
Scalar(a) == RVec(a.d)[1]
SameArr(a, b) == a.sh = b.sh /\ RVec(a.d) = RVec(b.d) /\ RVec(a.i) = RVec(b.i)

(* verdicts: the names of the clauses that do not hold *)
Failing(cs) == {cs[k][1] : k \in {j \in 1..Len(cs) : ~cs[j][2]}}
Must(name, ok) == IF ok THEN {} ELSE {name}
(* the call has to raise one of the exceptions of set E *)
Refused(name, e, E) == Must(name, e.r.exc \in E)
=============================================================================
